"""The abstract interpreter proper (expressions, statements, calls)."""

import ast
import builtins
import re

from . import strings as S
from .strings import lit
from .engine import *
from .engine import _jm

MAX_DEPTH = 90
MAX_RECURSION = 4
UNROLL = 400
SUPPORTED_BUILTINS = set(dir(builtins))


class Interp:
    def __init__(self, program, max_steps=30_000_000):
        self.p = program
        self.models = {}          # qualname -> fn(interp, args, kwargs, st, node, selfV)
        self.ext_models = {}      # dotted -> same
        self.ext_values = {'sys.maxsize': const(9223372036854775807)}      # dotted -> value
        self.class_models = {}
        self.steps = 0
        self.stub_modules = frozenset()
        self.undecided = 0        # number of branches taken both ways
        self.max_steps = max_steps
        self.frames = []
        self.callstack = []       # (FuncVal, call node)
        self.und_at = []
        self.collectors = []      # exception collectors
        self.escaped = []         # (excV, state, callstack) reaching no handler
        self.listeners = []       # fn(kind, st, node, **info)
        self.ctx = ()
        self._ctxids = {}
        self.module_oids = {}
        self.loading = set()
        self.unknown_notes = {}
        self.funcs_seen = set()
        self.track_exc_state = True
        from . import builtins_model
        builtins_model.install(self)

    # ---------------------------------------------------------------- infra

    def note(self, what, node):
        self.unknown_notes.setdefault(what, node)

    def event(self, kind, st, node, **info):
        for l in self.listeners:
            l(kind, st, node, info)

    def stack(self):
        return [(f.qualname, n) for f, n in self.callstack]

    def where(self, node):
        return self.p.where(node)

    def push_ctx(self, key):
        k = (self.ctx, key)
        i = self._ctxids.get(k)
        if i is None:
            i = self._ctxids[k] = len(self._ctxids) + 1
        old = self.ctx
        self.ctx = i
        return old

    def alloc(self, st, kind, node, cls=None, data=None, extra=None, tag=None):
        oid = (id(node), tag, self.ctx)
        old = st.heap.get(oid)
        if data is None:
            data = () if kind == 'list' else {}
        if kind == 'set' and extra is None:
            extra = BOT
        n = HObj(kind, cls, data, extra, False, st.owner, frozenset(), oid)
        if old is not None:
            n.summary = True
            n = join_obj(old, n, st.owner)
            if n is old:
                n = old.copy(st.owner)
            n.summary = True
        st.heap[oid] = n
        return ('o', oid)

    def new_list(self, st, node, segs, tag='l', cls='list'):
        return V(self.alloc(st, 'list', node, cls, tuple(segs), tag=tag))

    def new_dict(self, st, node, data=None, extra=None, tag='d', cls='dict'):
        return V(self.alloc(st, 'dict', node, cls, data or {}, extra, tag=tag))

    def new_set(self, st, node, vals=(), rest=BOT, tag='s', cls='set'):
        d = {}
        for a, must in vals:
            d[a] = must
        return V(self.alloc(st, 'set', node, cls, d, rest, tag=tag))

    # -------------------------------------------------------------- modules

    def load_all(self):
        st = State()
        for m in sorted(self.p.modules):
            if m.endswith('__main__'):
                continue
            self.load_module(m, st)
        return st

    def load_module(self, name, st):
        oid = ('M', name)
        if oid in st.heap:
            return oid
        if name not in self.p.modules:
            return None
        st.heap[oid] = HObj('frame', None, {'__name__': const(name), '__file__': const(self.p.paths.get(name, name))}, None,
                            False, st.owner, frozenset(), oid)
        fr = Frame(oid, None, name, ())
        self.frames.append(fr)
        try:
            end = self.exec_block(self.p.modules[name].body, st)
            if end is None and name == '__main__':
                raise Bottom()
            if end is None:
                raise AnalysisBroken('module %s cannot be evaluated' % name)
            if end is not st:
                st.assign(end)
        finally:
            self.frames.pop()
        return oid

    def get_global(self, st, module, name):
        oid = ('M', module)
        o = st.heap.get(oid)
        if o is None:
            return None
        return o.data.get(name)

    def resolve(self, st, dotted):
        """Resolve 'module.Class.method' to a value, or None."""
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:i])
            if m in self.p.modules:
                v = self.get_global(st, m, parts[i])
                for q in parts[i + 1:]:
                    if v is None:
                        return None
                    v2 = None
                    for a in v:
                        if a[0] == 'k':
                            v2, _ = a[1].lookup(q)
                    v = v2
                return v
        return None

    # ----------------------------------------------------------- statements

    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st)
        return st

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisBroken('analysis budget exceeded')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.note('stmt ' + type(s).__name__, s)
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    try:
                        self.ev(c, st)
                    except Bottom:
                        return None
            return st
        try:
            return m(s, st)
        except Bottom:
            return None

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def x_Pass(self, s, st):
        return st

    def x_Global(self, s, st):
        self.frames[-1].globals_ |= set(s.names)
        return st

    def x_Nonlocal(self, s, st):
        return st

    def x_Import(self, s, st):
        for a in s.names:
            if a.name in self.p.modules:
                self.load_module(a.name, st)
                top = a.name if a.asname else a.name.split('.')[0]
                self.bind_name(a.asname or a.name.split('.')[0], V(('mod', top)), st)
            else:
                self.bind_name(a.asname or a.name.split('.')[0],
                               V(('x', a.name if a.asname else a.name.split('.')[0])), st)
        return st

    def x_ImportFrom(self, s, st):
        cur = self.frames[-1].module
        if s.level:
            base = cur.split('.')
            is_pkg = self.p.paths.get(cur, '').endswith('__init__.py')
            base = base[:len(base) - (s.level - 1 if is_pkg else s.level)]
            mod = '.'.join(base + ([s.module] if s.module else []))
        else:
            mod = s.module
        for a in s.names:
            full = mod + '.' + a.name
            if full in self.p.modules:
                self.load_module(full, st)
                self.bind_name(a.asname or a.name, V(('mod', full)), st)
            elif mod in self.p.modules:
                self.load_module(mod, st)
                if a.name == '*':
                    for n, v in list(st.heap[('M', mod)].data.items()):
                        if not n.startswith('_'):
                            self.bind_name(n, v, st)
                    continue
                v = self.get_global(st, mod, a.name)
                if v is None and mod in self.stub_modules:
                    v = self.gap(full, s)
                if v is None:
                    self.raise_exc(V(('xi', 'builtins.ImportError')), st, s)
                    raise Bottom()
                self.bind_name(a.asname or a.name, v, st)
            else:
                self.bind_name(a.asname or a.name, V(('x', full)), st)
        return st

    def x_FunctionDef(self, s, st):
        f = self.make_func(s, st, s.name)
        v = V(('fn', f))
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st)
        self.bind_name(s.name, v, st)
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, d, v, st):
        name = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        (a,) = list(v)[:1]
        if name in ('staticmethod', 'classmethod', 'property') and a[0] == 'fn':
            a[1].kind = name
            return v
        if name in ('setter', 'getter', 'deleter'):
            return v
        dv = self.ev(d, st)
        if any(x[0] in ('x', 'u') for x in dv):
            # external decorator (functools.wraps, lru_cache, contextmanager...): identity
            return v
        return self.call(dv, [v], {}, st, d)

    def make_func(self, node, st, name):
        f = FuncVal()
        f.node = node
        fr = self.frames[-1]
        f.module = fr.module
        f.cls = getattr(self, '_cur_class', None)
        is_mod_frame = fr.oid[0] == 'M'
        f.closure = () if is_mod_frame else fr.closure + (fr.oid,)
        f.kind = None
        owner = f.cls.qualname if f.cls else (fr.func.qualname if fr.func else fr.module)
        f.qualname = owner + '.' + name
        a = node.args
        f.defaults = [self.ev(d, st) for d in a.defaults]
        f.kwdefaults = [self.ev(d, st) if d is not None else None for d in a.kw_defaults]
        f.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        return f

    def x_ClassDef(self, s, st):
        bases = []
        for b in s.bases:
            for a in self.ev(b, st):
                bases.append(a[1] if a[0] == 'k' else 'builtins.object' if a[0] != 'x' else a[1])
        outer = getattr(self, '_cur_class', None)
        fr = self.frames[-1]
        q = (outer.qualname if outer else fr.func.qualname if fr.func else fr.module) + '.' + s.name
        c = ClassVal(s.name, fr.module, bases, q)
        c.node = s
        oid = ('C', id(s), self.ctx)
        st.heap[oid] = HObj('frame', None, {}, None, False, st.owner, frozenset(), oid)
        nf = Frame(oid, fr.func, fr.module, fr.closure + (() if fr.oid[0] == 'M' else (fr.oid,)))
        self.frames.append(nf)
        self._cur_class = c
        # methods must not see the class frame as closure
        saved = nf.oid
        try:
            for sub in s.body:
                if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self.make_func(sub, st, sub.name)
                    f.closure = nf.closure
                    v = V(('fn', f))
                    for d in reversed(sub.decorator_list):
                        v = self.decorate(d, v, st)
                    self.bind_name(sub.name, v, st)
                else:
                    self.exec_stmt(sub, st)
        finally:
            self._cur_class = outer
            self.frames.pop()
        for n, v in st.heap[saved].data.items():
            c.attrs[n] = v
            for a in v:
                if a[0] == 'fn' and a[1].cls is None:
                    a[1].cls = c
        v = V(('k', c))
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st)
            if not any(x[0] in ('x', 'u') for x in dv):
                v = self.call(dv, [v], {}, st, d)
        self.bind_name(s.name, v, st)
        return st

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.frames[-1].returns.append((v, st))
        return None

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.del_item(o, k, st, t)
            elif isinstance(t, ast.Name):
                oid = self.frames[-1].oid
                st.w(oid).data.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.write_attr(self.ev(t.value, st), t.attr, UNKNOWN, st, t)
        return st

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_name(t.id, st, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            cur = self.get_attr(base, t.attr, st, t)
        else:
            base = self.ev(t.value, st)
            key = self.ev(t.slice, st)
            cur = self.subscript(base, key, st, t)
        rhs = self.ev(s.value, st)
        # in-place for lists/sets/dicts
        lists = [a for a in cur if a[0] == 'o' and st.heap[a[1]].kind == 'list' and
                 st.heap[a[1]].cls == 'list']
        if lists and isinstance(s.op, ast.Add) and len(lists) == len(cur):
            for a in lists:
                self.list_extend(V(a), rhs, st, s, weak=len(lists) > 1)
            return st
        sets = [a for a in cur if a[0] == 'o' and st.heap[a[1]].kind in ('set', 'dict')]
        if sets and isinstance(s.op, ast.BitOr) and len(sets) == len(cur):
            for a in sets:
                self.call_method(V(a), 'update', [rhs], {}, st, s)
            return st
        v = self.binop(s.op, cur, rhs, st, s)
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            self.write_attr(base, t.attr, v, st, t)
        else:
            self.set_item(base, key, v, st, t)
        return st

    def x_If(self, s, st):
        return self.branch(s.test, st,
                           lambda q: self.exec_block(s.body, q),
                           lambda q: self.exec_block(s.orelse, q))

    def branch(self, test, st, on_true, on_false):
        tr = self.ev_truth(test, st)
        if tr == {True}:
            self.refine(test, st, True)
            return on_true(st)
        if tr == {False}:
            self.refine(test, st, False)
            return on_false(st)
        self.undecided += 1
        st2 = st.fork()
        out1 = out2 = None
        if self.refine(test, st, True):
            out1 = on_true(st)
        if self.refine(test, st2, False):
            out2 = on_false(st2)
        return join_states(out1, out2)

    def x_While(self, s, st):
        fr = self.frames[-1]
        loop = {'brk': [], 'cont': []}
        fr.loops.append(loop)
        try:
            n = 0
            cur = st
            exits = []
            # exact unrolling while the condition is decided
            und0 = self.undecided
            while cur is not None and n < (2000 if self.undecided == und0 else 3):
                old = self.push_ctx(('w', id(s), n))
                try:
                    try:
                        tr = self.ev_truth(s.test, cur)
                    except Bottom:
                        cur = None
                        break
                    if tr == {False}:
                        self.refine(s.test, cur, False)
                        exits.append(cur)
                        cur = None
                        break
                    if tr == {True, False}:
                        break
                    loop['cont'] = []
                    cur = self.exec_block(s.body, cur)
                    for c in loop['cont']:
                        cur = join_states(cur, c)
                finally:
                    self.ctx = old
                n += 1
            if cur is not None:
                old = self.push_ctx(('w', id(s), '*'))
                try:
                    head = cur
                    for it in range(12):
                        b = head.fork()
                        loop['cont'] = []
                        try:
                            tr = self.ev_truth(s.test, b)
                            if True not in tr or not self.refine(s.test, b, True):
                                break
                        except Bottom:
                            break
                        out = self.exec_block(s.body, b)
                        for c in loop['cont']:
                            out = join_states(out, c)
                        if out is None:
                            break
                        new = join_states(head.fork(), out)
                        if it >= 1:
                            new = widen_states(head, new)
                        if states_equal(head, new):
                            break
                        head = new
                    else:
                        self.note('while loop not stable', s)
                    try:
                        tr = self.ev_truth(s.test, head)
                        if False in tr and self.refine(s.test, head, False):
                            exits.append(head)
                    except Bottom:
                        pass
                finally:
                    self.ctx = old
            end = None
            for e in exits:
                end = join_states(end, e)
        finally:
            fr.loops.pop()
        if end is not None and s.orelse:
            end = self.exec_block(s.orelse, end)
        for b in loop['brk']:
            end = join_states(end, b)
        return end

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        segs = self.iterate(it, st, s.iter)
        fr = self.frames[-1]
        loop = {'brk': [], 'cont': []}
        fr.loops.append(loop)
        try:
            cur = st
            for n, (v, m) in enumerate(segs):
                if cur is None:
                    break
                old = self.push_ctx(('f', id(s), n))
                try:
                    if m in (1, '?'):
                        skip = cur.fork() if m == '?' else None
                        loop['cont'] = []
                        try:
                            self.assign(s.target, v, cur)
                            cur = self.exec_block(s.body, cur)
                        except Bottom:
                            cur = None
                        for c in loop['cont']:
                            cur = join_states(cur, c)
                        cur = join_states(cur, skip)
                    else:
                        head = cur
                        for k in range(12):
                            b = head.fork()
                            loop['cont'] = []
                            try:
                                self.assign(s.target, v, b)
                                b = self.exec_block(s.body, b)
                            except Bottom:
                                b = None
                            for c in loop['cont']:
                                b = join_states(b, c)
                            if b is None:
                                break
                            new = join_states(head.fork(), b)
                            if k >= 1:
                                new = widen_states(head, new)
                            if states_equal(head, new):
                                break
                            head = new
                        else:
                            self.note('for loop not stable', s)
                        cur = head
                finally:
                    self.ctx = old
        finally:
            fr.loops.pop()
        if cur is not None and s.orelse:
            cur = self.exec_block(s.orelse, cur)
        for b in loop['brk']:
            cur = join_states(cur, b)
        return cur

    x_AsyncFor = x_For

    def x_Break(self, s, st):
        self.frames[-1].loops[-1]['brk'].append(st)
        return None

    def x_Continue(self, s, st):
        self.frames[-1].loops[-1]['cont'].append(st)
        return None

    def x_Assert(self, s, st):
        tr = self.ev_truth(s.test, st)
        if tr == {False}:
            self.raise_exc(V(('xi', 'builtins.AssertionError')), st, s)
            return None
        if False in tr:
            b = st.fork()
            if self.refine(s.test, b, False):
                self.raise_exc(V(('xi', 'builtins.AssertionError')), b, s, may=True)
        if not self.refine(s.test, st, True):
            return None
        return st

    def x_Raise(self, s, st):
        if s.exc is None:
            self.raise_exc(getattr(self, 'cur_exc', None) or V(('xi', 'builtins.Exception')), st, s)
            return None
        v = self.ev(s.exc, st)
        out = BOT
        for a in v:
            if a[0] == 'k':
                out |= self.call(V(a), [], {}, st, s)
            elif a[0] == 'x':
                out |= V(('xi', a[1]))
            else:
                out |= V(a)
        if s.cause is not None:
            self.ev(s.cause, st)
        self.raise_exc(out, st, s)
        return None

    def raise_exc(self, v, st, node, may=False):
        """Record an exception; `may`: the normal path continues."""
        if self.collectors:
            key = (v, id(node))
            col = self.collectors[-1]
            if key in col:
                col[key] = (v, join_states(col[key][1], st.fork()), node, col[key][3], may and col[key][4])
            else:
                col[key] = (v, st.fork(), node, list(self.callstack), may)
        else:
            self.escaped.append((v, node, list(self.callstack), may))

    def x_Try(self, s, st):
        col = {}
        self.collectors.append(col)
        depth = len(self.frames)
        try:
            out = self.exec_block(s.body, st)
        finally:
            self.collectors.pop()
        ends = []
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out)
        if out is not None:
            ends.append(out)
        pend = []      # exceptions escaping
        fr = self.frames[-1]
        n_ret = len(fr.returns)
        for v, est, node, stack, may in list(col.values()):
            remaining = v
            for h in s.handlers:
                if not remaining:
                    break
                yes, maybe, rest = self.match_exc(remaining, h, est)
                if yes | maybe:
                    hs = est.fork()
                    if h.name:
                        self.bind_name(h.name, yes | maybe, hs)
                    saved = getattr(self, 'cur_exc', None)
                    self.cur_exc = yes | maybe
                    if s.finalbody:
                        col2 = {}
                        self.collectors.append(col2)
                    try:
                        o = self.exec_block(h.body, hs)
                    finally:
                        self.cur_exc = saved
                        if s.finalbody:
                            self.collectors.pop()
                            pend.extend(col2.values())
                    if o is not None:
                        ends.append(o)
                remaining = rest | maybe
            if remaining:
                pend.append((remaining, est, node, stack, may))
        end = None
        for e in ends:
            end = join_states(end, e)
        if s.finalbody:
            if end is not None:
                end = self.exec_block(s.finalbody, end)
            for v, est, node, stack, may in pend:
                e2 = self.exec_block(s.finalbody, est)
                if e2 is not None:
                    self.reraise(v, e2, node, stack, may)
        else:
            for v, est, node, stack, may in pend:
                self.reraise(v, est, node, stack, may)
        return end

    x_TryStar = x_Try

    def reraise(self, v, st, node, stack, may):
        if self.collectors:
            key = (v, id(node))
            col = self.collectors[-1]
            if key in col:
                col[key] = (v, join_states(col[key][1], st), node, stack, may and col[key][4])
            else:
                col[key] = (v, st, node, stack, may)
        else:
            self.escaped.append((v, node, stack, may))

    def match_exc(self, v, h, st):
        if h.type is None:
            return v, BOT, BOT
        types = []
        tv = self.ev(h.type, st)
        for a in tv:
            if a[0] == 'tup':
                for e in a[1]:
                    types.extend(e)
            else:
                types.append(a)
        yes = maybe = rest = BOT
        for a in v:
            r = False
            for t in types:
                x = self.exc_isinstance(a, t, st)
                if x is True:
                    r = True
                    break
                if x is None:
                    r = None
            if r is True:
                yes |= V(a)
            elif r is None:
                maybe |= V(a)
            else:
                rest |= V(a)
        return yes, maybe, rest

    def exc_isinstance(self, a, t, st):
        if a[0] == 'o':
            cls = st.heap[a[1]].cls
            if t[0] == 'k':
                return t[1] in cls.get_mro()
            if t[0] == 'x':
                return any(exc_is_sub(b, t[1]) for b in cls.ext_bases())
            return None
        if a[0] == 'xi':
            if t[0] == 'x':
                if exc_is_sub(a[1], t[1]):
                    return True
                return False if a[1].startswith('builtins.') or t[1].startswith('builtins.') else None
            return False
        if a[0] == 'anyexc':
            return None
        return None

    def x_With(self, s, st):
        managers = []
        for item in s.items:
            v = self.ev(item.context_expr, st)
            entered = self.call_method(v, '__enter__', [], {}, st, item.context_expr)
            managers.append((v, item.context_expr))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, entered, st)
        inst = [(v, n) for v, n in managers if any(a[0] == 'o' for a in v)]
        if not inst:
            return self.exec_block(s.body, st)
        fr = self.frames[-1]
        n_ret = len(fr.returns)
        loops = fr.loops[-1] if fr.loops else {'brk': [], 'cont': []}
        nb, nc = len(loops['brk']), len(loops['cont'])
        col = {}
        self.collectors.append(col)
        try:
            out = self.exec_block(s.body, st)
        finally:
            self.collectors.pop()

        def leave(q):
            for v, n in reversed(inst):
                self.call_method(v, '__exit__', [NONE, NONE, NONE], {}, q, n)
            return q
        if out is not None:
            try:
                out = leave(out)
            except Bottom:
                out = None
        for lst, k in ((loops['brk'], nb), (loops['cont'], nc)):
            for q in lst[k:]:
                leave(q)
        for _, q in fr.returns[n_ret:]:
            leave(q)
        for v, est, node, stack, may in list(col.values()):
            try:
                for mv, n in reversed(inst):
                    self.call_method(mv, '__exit__', [UNKNOWN, v, UNKNOWN], {}, est, n)
            except Bottom:
                continue
            self.reraise(v, est, node, stack, may)
        return out

    x_AsyncWith = x_With

    def x_Match(self, s, st):
        subj = self.ev(s.subject, st)
        end = None
        rest = st
        for case in s.cases:
            if rest is None:
                break
            r = self.match_pattern(case.pattern, subj, rest)
            if r is False:
                continue
            b = rest.fork()
            self.bind_pattern(case.pattern, subj, b)
            sure = r is True
            if case.guard is not None:
                tr = self.ev_truth(case.guard, b)
                if True not in tr:
                    continue
                if False in tr:
                    sure = False
                self.refine(case.guard, b, True)
            end = join_states(end, self.exec_block(case.body, b))
            if sure:
                rest = None
        return join_states(end, rest)

    def match_pattern(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            tr = self.compare_eq(v, self.ev(p.value, st), st, p)
            return True if tr == {True} else False if tr == {False} else None
        if isinstance(p, ast.MatchSingleton):
            tr = self.compare_eq(v, const(p.value), st, p)
            return True if tr == {True} else False if tr == {False} else None
        if isinstance(p, ast.MatchOr):
            rs = [self.match_pattern(q, v, st) for q in p.patterns]
            return True if True in rs else None if None in rs else False
        if isinstance(p, ast.MatchAs):
            return True if p.pattern is None else self.match_pattern(p.pattern, v, st)
        return None

    def bind_pattern(self, p, v, st):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                self.bind_pattern(p.pattern, v, st)
            if p.name:
                self.bind_name(p.name, v, st)
        else:
            for q in ast.iter_child_nodes(p):
                if isinstance(q, ast.pattern):
                    self.bind_pattern(q, unknown(self.taints(v, st)), st)

    # ------------------------------------------------------------- binding

    def bind_name(self, name, v, st):
        fr = self.frames[-1]
        if name in fr.globals_:
            st.w(('M', fr.module)).data[name] = v
            return
        f = fr.func
        if f is not None and fr.oid[0] != 'C' and name in _nonlocals(f.node):
            for oid in reversed(fr.closure):
                if oid in st.heap and name in st.heap[oid].data:
                    st.w(oid).data[name] = v
                    return
        st.w(fr.oid).data[name] = v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            self.write_attr(self.ev(t.value, st), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                for a in o:
                    if a[0] == 'o' and st.heap[a[1]].kind == 'list':
                        self.event('write', st, t, oid=a[1], what='slice')
                        w = st.w(a[1])
                        w.data = ((seg_join_all(w.data) | seg_join_all(self.iterate(v, st, t)), '*'),)
                return
            self.set_item(o, self.ev(t.slice, st), v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        outs = [BOT] * n
        starred_segs = []
        fail = False
        okcount = 0
        for a in v:
            segs = None
            if a[0] == 'tup':
                segs = [(e, 1) for e in a[1]]
            else:
                segs = self.iterate(V(a), st, t)
            if all(m == 1 for _, m in segs):
                vals = [e for e, _ in segs]
                if star:
                    k = star[0]
                    after = n - k - 1
                    if len(vals) < n - 1:
                        fail = True
                        continue
                    for i in range(k):
                        outs[i] |= vals[i]
                    for i in range(after):
                        outs[n - 1 - i] |= vals[len(vals) - 1 - i]
                    starred_segs.append(tuple((e, 1) for e in vals[k:len(vals) - after]))
                else:
                    if len(vals) != n:
                        fail = True
                        continue
                    for i in range(n):
                        outs[i] |= vals[i]
            else:
                fail = True
                el = seg_join_all(segs)
                # leading exact elements
                lead = []
                for e, m in segs:
                    if m != 1:
                        break
                    lead.append(e)
                for i in range(n):
                    if star and i == star[0]:
                        starred_segs.append(tuple(segs[i:]) if i <= len(lead) else ((el, '*'),))
                    else:
                        outs[i] |= lead[i] if i < len(lead) and (not star or i < star[0]) else el
            okcount += 1
        if fail:
            self.raise_exc(V(('xi', 'builtins.ValueError')), st, t, may=okcount > 0)
        if okcount == 0:
            raise Bottom()
        for i, e in enumerate(t.elts):
            if star and i == star[0]:
                segs = starred_segs[0] if starred_segs else ()
                for x in starred_segs[1:]:
                    segs = join_lists(segs, x)
                self.assign(e.value, self.new_list(st, e, segs), st)
            else:
                self.assign(e, outs[i], st)

    # --------------------------------------------------------- expressions

    def ev(self, e, st):
        self.steps += 1
        return getattr(self, 'e_' + type(e).__name__, self.e_other)(e, st)

    def e_other(self, e, st):
        self.note('expr ' + type(e).__name__, e)
        t = S.NOT
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                t |= self.taints(self.ev(c, st), st)
        return unknown(t)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.ev_name(e.id, st, e)

    def ev_name(self, name, st, node):
        fr = self.frames[-1]
        if name not in fr.globals_:
            o = st.heap[fr.oid]
            if name in o.data:
                return o.data[name]
            for oid in reversed(fr.closure):
                o = st.heap.get(oid)
                if o is not None and name in o.data:
                    return o.data[name]
        m = st.heap.get(('M', fr.module))
        if m is not None and name in m.data:
            return m.data[name]
        if name in SUPPORTED_BUILTINS:
            if name == 'NotImplemented':
                return const(NotImplemented)
            return V(('x', 'builtins.' + name))
        self.raise_exc(V(('xi', 'builtins.NameError')), st, node)
        self.note('unbound name ' + name, node)
        raise Bottom()

    def e_Attribute(self, e, st):
        return self.get_attr(self.ev(e.value, st), e.attr, st, e)

    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            for fr in reversed(self.frames):
                f = fr.func
                if f is not None and f.cls is not None and not isinstance(f.node, ast.Lambda) and f.node.args.args:
                    sv = st.heap[fr.oid].data.get(f.node.args.args[0].arg, UNKNOWN)
                    return V(*[('super', f.cls, a) for a in sv])
            return UNKNOWN
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'vars', 'globals') and not e.args:
            fr = self.frames[-1]
            src = st.heap[fr.oid if e.func.id != 'globals' else ('M', fr.module)].data
            return self.new_dict(st, e, {('s', lit(k)): (v, True) for k, v in src.items()})
        fv = self.ev(e.func, st)
        args, kwargs, extra = self.ev_args(e, st)
        if extra is not None:
            kwargs['**'] = extra
        return self.call(fv, args, kwargs, st, e)

    def ev_args(self, e, st):
        args = []
        kwargs = {}
        extra = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                segs = self.iterate(v, st, a)
                for el, m in segs:
                    if m == 1:
                        args.append(el)
                    else:
                        args.append(('*', el))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                for a in v:
                    if a[0] == 'o' and st.heap[a[1]].kind == 'dict':
                        o = st.heap[a[1]]
                        for ka, (val, must) in o.data.items():
                            if ka[0] == 's' and ka[1].kind == 'lit':
                                n = ka[1].a
                                if must and len(v) == 1:
                                    kwargs[n] = val
                                else:
                                    kwargs[n] = (kwargs.get(n, BOT) if not isinstance(kwargs.get(n), tuple)
                                                 else kwargs[n][1]) | val
                                    kwargs[n] = ('?', kwargs[n])
                        if o.extra:
                            extra = (extra or BOT) | o.extra[1]
                    elif a[0] == 'u':
                        extra = (extra or BOT) | V(a)
            else:
                kwargs[k.arg] = v
        return args, kwargs, extra

    def e_Lambda(self, e, st):
        return V(('fn', self.make_func(e, st, '<lambda>')))

    def e_IfExp(self, e, st):
        return self.ev_branch(e.test, st, lambda q: self.ev(e.body, q), lambda q: self.ev(e.orelse, q))

    def ev_branch(self, test, st, on_true, on_false):
        tr = self.ev_truth(test, st)
        if tr == {True}:
            self.refine(test, st, True)
            return on_true(st)
        if tr == {False}:
            self.refine(test, st, False)
            return on_false(st)
        self.undecided += 1
        s2 = st.fork()
        s1 = st.fork()
        v = BOT
        out = None
        if self.refine(test, s1, True):
            try:
                v |= on_true(s1)
                out = s1
            except Bottom:
                pass
        if self.refine(test, s2, False):
            try:
                v |= on_false(s2)
                out = join_states(out, s2)
            except Bottom:
                pass
        if out is None:
            raise Bottom()
        st.assign(out)
        return v

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)

        def go(i, q):
            x = e.values[i]
            v = self.ev(x, q)
            if i == len(e.values) - 1:
                return v
            tr = self.truth(v, q)
            keep = frozenset(a for a in v if (not is_and) in self.truth(V(a), q))
            if is_and:
                keep = self.falsy_part(keep)
            if tr == {True} if is_and else tr == {False}:
                self.refine(x, q, is_and)
                return go(i + 1, q)
            if tr == {False} if is_and else tr == {True}:
                return v
            # undecided
            s2 = q.fork()
            out = keep
            res_state = q.fork()
            if not self.refine(x, res_state, not is_and):
                res_state = None
                out = BOT
            if self.refine(x, s2, is_and):
                try:
                    out |= go(i + 1, s2)
                    res_state = join_states(res_state, s2)
                except Bottom:
                    pass
            if res_state is None:
                raise Bottom()
            q.assign(res_state)
            return out
        return go(0, st)

    def falsy_part(self, v):
        return v

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            tr = self.ev_truth(e.operand, st)
            return frozenset().union(*[const(not t) for t in tr])
        v = self.ev(e.operand, st)
        ok, c = const_of(v)
        if ok and isinstance(c, (int, float)):
            if isinstance(e.op, ast.USub):
                return const(-c)
            if isinstance(e.op, ast.UAdd):
                return const(+c)
            return const(~c)
        return INT

    def e_Compare(self, e, st):
        tr = self.ev_truth(e, st)
        return frozenset().union(*[const(t) for t in tr])

    def ev_truth(self, e, st):
        """Possible truth values of expression e."""
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, st)
            res = {True}
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(r, st)
                t = self.compare(op, left, right, st, e)
                if True not in t:
                    return {False} if res == {True} or False in res else {False}
                if False in t:
                    res = {True, False}
                left = right
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {not t for t in self.ev_truth(e.operand, st)}
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)

            def go(i, q):
                tr = self.ev_truth(e.values[i], q)
                if i == len(e.values) - 1:
                    return tr
                stop, cont = (False, True) if is_and else (True, False)
                if tr == {stop}:
                    return tr
                if tr == {cont}:
                    self.refine(e.values[i], q, cont)
                    return go(i + 1, q)
                s2 = q.fork()
                out = {stop}
                if self.refine(e.values[i], s2, cont):
                    try:
                        out |= go(i + 1, s2)
                    except Bottom:
                        pass
                # keep heap effects of the second operand (writes) joined
                q.assign(join_states(q.fork(), s2)) if _may_write(e.values[i + 1:]) else None
                return out
            return go(0, st if _may_write(e.values) else st.fork())
        return self.truth(self.ev(e, st), st)

    def truth(self, v, st):
        out = set()
        for a in v:
            k = a[0]
            if k == 'c':
                out.add(bool(a[2]))
            elif k == 's':
                n = a[1]
                if n.kind == 'lit':
                    out.add(bool(n.a))
                elif n.minlen > 0:
                    out.add(True)
                else:
                    out |= {True, False}
            elif k == 'o':
                o = st.heap[a[1]]
                if o.kind == 'list':
                    if any(m == 1 for _, m in o.data):
                        out.add(True)
                    elif not o.data:
                        out.add(False)
                    else:
                        out |= {True, False}
                elif o.kind == 'dict':
                    if any(m for _, m in o.data.values()):
                        out.add(True)
                    elif not o.data and not o.extra:
                        out.add(False)
                    else:
                        out |= {True, False}
                elif o.kind == 'inst' and '$base' in o.data and o.cls.lookup('__bool__')[0] is None:
                    out |= self.truth(o.data['$base'], st)
                elif o.kind == 'set':
                    if any(o.data.values()):
                        out.add(True)
                    elif not o.data and not o.extra:
                        out.add(False)
                    else:
                        out |= {True, False}
                elif o.kind == 'inst':
                    m, _ = o.cls.lookup('__bool__')
                    if m is None:
                        m, _ = o.cls.lookup('__len__')
                    out |= {True, False} if m is not None else {True}
                else:
                    out.add(True)
            elif k == 'tup':
                out.add(bool(a[1]))
            elif k in ('fn', 'bm', 'k', 'mod', 'x', 'xm', 'tok', 'xi', 'rx', 'match', 'super', 'pf', 'file'):
                out.add(True)
            else:
                out |= {True, False}
        return out or {True, False}

    # -------------------------------------------------------- refinement

    def refine(self, e, st, truth):
        """Refine st with e being `truth`; False when that is impossible."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, st, not truth)
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            if is_and == truth:
                for x in e.values:
                    if not self.refine(x, st, truth):
                        return False
            return True
        if isinstance(e, ast.NamedExpr):
            return self.refine(e.target, st, truth)
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.refine_ref(e, st, lambda a: truth in self.truth(V(a), st), truth_refine=truth)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            left, right = e.left, e.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                eq = isinstance(op, (ast.Is, ast.Eq)) == truth
                for x, y in ((left, right), (right, left)):
                    if isinstance(x, (ast.Name, ast.Attribute)) and _pure(y):
                        try:
                            yv = self.ev(y, st)
                        except Bottom:
                            return True
                        if len(yv) == 1 and eq:
                            if not self.refine_ref(x, st, lambda a: True in self.eq_values(V(a), yv, st),
                                                   narrow=yv):
                                return False
                        elif len(yv) == 1:
                            if not self.refine_ref(x, st, lambda a: False in self.eq_values(V(a), yv, st)):
                                return False
                return True
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(left, (ast.Name, ast.Attribute)) and _pure(right):
                isin = isinstance(op, ast.In) == truth
                try:
                    rv = self.ev(right, st)
                except Bottom:
                    return True
                return self.refine_ref(left, st, lambda a: isin in self.contains(rv, V(a), st))
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(right, (ast.Name, ast.Attribute)) and _pure(left):
                # 'key' in d  -> presence of the key
                isin = isinstance(op, ast.In) == truth
                try:
                    kv = self.ev(left, st)
                    rv = self.ev(right, st)
                except Bottom:
                    return True
                if len(kv) == 1 and len(rv) == 1:
                    (ka,), (ra,) = kv, rv
                    if ra[0] == 'o' and st.heap[ra[1]].kind == 'dict' and not st.heap[ra[1]].summary:
                        o = st.heap[ra[1]]
                        if ka in o.data and isin and not o.data[ka][1]:
                            w = st.w(ra[1])
                            w.data[ka] = (w.data[ka][0], True)
                        elif ka in o.data and not isin and not o.data[ka][1]:
                            del st.w(ra[1]).data[ka]
                return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and \
                len(e.args) == 2 and isinstance(e.args[0], (ast.Name, ast.Attribute)):
            try:
                tv = self.ev(e.args[1], st)
            except Bottom:
                return True
            return self.refine_ref(e.args[0], st, lambda a: truth in self.isinstance_(V(a), tv, st))
        return True

    def refine_ref(self, e, st, keep, truth_refine=None, narrow=None):
        loc = self.ref(e, st)
        if loc is None:
            return True
        oid, name = loc
        o = st.heap[oid]
        if name not in o.data:
            return True
        v = o.data[name]
        nv = frozenset(a for a in v if keep(a))
        if not nv:
            return False
        if narrow is not None:
            # unknown atoms equal to a constant become that constant
            ok, _ = const_of(narrow)
            if ok:
                nv = frozenset().union(*[narrow if a[0] in ('u', 'i') or
                                         (a[0] == 's' and a[1].kind == 'any') else V(a) for a in nv])
        if nv != v:
            st.w(oid).data[name] = nv
        return True

    def ref(self, e, st):
        """(oid, field) of a refinable reference."""
        if isinstance(e, ast.Name):
            fr = self.frames[-1]
            if e.id in fr.globals_:
                return None
            if e.id in st.heap[fr.oid].data:
                return fr.oid, e.id
            for oid in reversed(fr.closure):
                if oid in st.heap and e.id in st.heap[oid].data:
                    return oid, e.id
            return None
        if isinstance(e, ast.Attribute):
            if not _pure(e.value):
                return None
            try:
                b = self.ev(e.value, st)
            except Bottom:
                return None
            if len(b) == 1:
                (a,) = b
                if a[0] == 'o':
                    o = st.heap[a[1]]
                    if o.kind == 'inst' and not o.summary and e.attr in o.data:
                        return a[1], e.attr
        return None

    # --------------------------------------------------------- containers

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.new_list(st, e, self.elts_segs(e, st), cls='tuple')
        return V(('tup', tuple(self.ev(x, st) for x in e.elts)))

    def elts_segs(self, e, st):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iterate(self.ev(x.value, st), st, x))
            else:
                segs.append((self.ev(x, st), 1))
        return segs

    def e_List(self, e, st):
        return self.new_list(st, e, self.elts_segs(e, st))

    def e_Set(self, e, st):
        vals = []
        rest = BOT
        for v, m in self.elts_segs(e, st):
            if len(v) == 1 and m == 1 and self.hashable_const(next(iter(v))):
                vals.append((next(iter(v)), True))
            else:
                rest |= v
        return self.new_set(st, e, vals, rest)

    def hashable_const(self, a):
        if a[0] in ('c', 'k', 'x', 'tok', 'fn', 'mod'):
            return True
        if a[0] == 's':
            return S.ground(a[1])
        if a[0] == 'tup':
            return all(len(x) == 1 and self.hashable_const(next(iter(x))) for x in a[1])
        if a[0] == 'o':
            return True
        return False

    def e_Dict(self, e, st):
        r = self.new_dict(st, e)
        (a,) = r
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st)
                self.dict_update(r, src, st, e)
            else:
                kv = self.ev(k, st)
                vv = self.ev(v, st)
                self.set_item(r, kv, vv, st, e, quiet=True)
        return r

    def _comp(self, e, st, emit):
        """Run comprehension generators; emit(st, mult) at the innermost level."""
        def gen(i, q, mult):
            if i == len(e.generators):
                emit(q, mult)
                return q
            g = e.generators[i]
            it = self.ev(g.iter, q)
            segs = self.iterate(it, q, g.iter)
            cur = q
            for n, (v, m) in enumerate(segs):
                old = self.push_ctx(('c', id(g), n))
                try:
                    reps = 2 if m == '*' else 1
                    for _ in range(reps):
                        self.assign(g.target, v, cur)
                        m2 = m if mult == 1 else mult if m == 1 else '*' if '*' in (m, mult) else '?'
                        body = cur.fork()
                        ok = True
                        cond_sure = True
                        for c in g.ifs:
                            tr = self.ev_truth(c, body)
                            if True not in tr or not self.refine(c, body, True):
                                ok = False
                                break
                            if False in tr:
                                cond_sure = False
                        if ok:
                            mm = m2 if cond_sure else ('?' if m2 == 1 else m2)
                            out = gen(i + 1, body, mm)
                            if cond_sure and m == 1:
                                cur = out
                            else:
                                cur = join_states(cur, out)
                finally:
                    self.ctx = old
            return cur
        # comprehension variables live in the enclosing frame; restore afterwards
        fr = self.frames[-1]
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: st.heap[fr.oid].data.get(n) for n in names}
        out = gen(0, st, 1)
        w = out.w(fr.oid)
        for n, v in saved.items():
            if v is None:
                w.data.pop(n, None)
            else:
                w.data[n] = v
        if out is not st:
            st.assign(out)

    def e_ListComp(self, e, st):
        segs = []

        def emit(q, m):
            segs.append((self.ev(e.elt, q), m))
        self._comp(e, st, emit)
        return self.new_list(st, e, _compact(segs))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        vals = []

        def emit(q, m):
            vals.append((self.ev(e.elt, q), m))
        self._comp(e, st, emit)
        return self.make_set(st, e, vals)

    def make_set(self, st, node, segs, cls='set', tag='s'):
        d = {}
        rest = BOT
        for v, m in segs:
            if len(v) == 1 and self.hashable_const(next(iter(v))):
                a = next(iter(v))
                d[a] = d.get(a, False) or m == 1
            elif all(self.hashable_const(a) for a in v):
                for a in v:
                    d[a] = d.get(a, False)
            else:
                rest |= v
        return V(self.alloc(st, 'set', node, cls, d, rest, tag=tag))

    def e_DictComp(self, e, st):
        items = []

        def emit(q, m):
            items.append((self.ev(e.key, q), self.ev(e.value, q), m))
        self._comp(e, st, emit)
        r = self.new_dict(st, e)
        for k, v, m in items:
            self.set_item(r, k, v, st, e, quiet=True, may=m != 1)
        return r

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, st) if e.slice.upper else NONE
            step = self.ev(e.slice.step, st) if e.slice.step else NONE
            return self.slice(o, lo, hi, step, st, e)
        return self.subscript(o, self.ev(e.slice, st), st, e)

    def slice(self, o, lo, hi, step, st, node):
        okl, l = const_of(lo)
        okh, h = const_of(hi)
        oks, sp = const_of(step)
        out = BOT
        o = frozenset(self.base_of(a, st) or a if a[0] == 'o' else a for a in o)
        for a in o:
            if a[0] == 's':
                n = a[1]
                if n.kind == 'lit' and okl and okh and oks:
                    out |= const(n.a[l:h:sp])
                elif okl and okh and oks and word_slice(n, l, h, sp) is not None:
                    out |= string(word_slice(n, l, h, sp))
                elif okl and okh and oks and sp is None and isinstance(l, int) and l >= 0 and h is None and len(S.prefix(n)) >= l:
                    ps = list(S.parts(n))
                    ps[0] = lit(ps[0].a[l:])
                    out |= string(S.cat(ps))
                elif okl and okh and oks and sp is None and l in (None, 0) and isinstance(h, int) and h >= 0 and len(S.prefix(n)) >= h:
                    out |= const(S.prefix(n)[:h])
                else:
                    out |= string(S.any_(n.taints))
            elif a[0] == 'tup':
                if okl and okh and oks:
                    out |= V(('tup', a[1][l:h:sp]))
                else:
                    el = frozenset().union(*a[1]) if a[1] else BOT
                    out |= self.new_list(st, node, ((el, '*'),), cls='tuple')
            elif a[0] == 'o' and st.heap[a[1]].kind == 'list':
                d = st.heap[a[1]].data
                cls = st.heap[a[1]].cls
                if okl and okh and oks and all(m == 1 for _, m in d):
                    out |= self.new_list(st, node, d[l:h:sp], tag=('sl', a), cls=cls)
                elif okl and isinstance(l, int) and l >= 0 and okh and h is None and sp is None and \
                        all(m == 1 for _, m in d[:l]) and len(d) >= l:
                    out |= self.new_list(st, node, d[l:], tag=('sl', a), cls=cls)
                else:
                    el = seg_join_all(d)
                    out |= self.new_list(st, node, ((el, '*'),) if el else (), tag=('sl', a), cls=cls)
            else:
                out |= unknown(self.taints(V(a), st))
        return out

    def subscript(self, o, k, st, node):
        out = BOT
        fails = 0
        total = 0
        exc = BOT
        for a in o:
            total += 1
            t = a[0]
            ok, kc = const_of(k)
            try_v = None
            if t == 'tup':
                if ok and isinstance(kc, int):
                    if -len(a[1]) <= kc < len(a[1]):
                        try_v = a[1][kc]
                    else:
                        exc |= V(('xi', 'builtins.IndexError'))
                elif ok:
                    exc |= V(('xi', 'builtins.TypeError'))
                else:
                    try_v = frozenset().union(*a[1]) if a[1] else BOT
                    exc |= V(('xi', 'builtins.IndexError'))
            elif t == 'match':
                try_v = self.call_builtin_method(a, 'group', [k], {}, st, node)
            elif t == 's':
                n = a[1]
                if ok and isinstance(kc, int):
                    if n.kind == 'lit':
                        if -len(n.a) <= kc < len(n.a):
                            try_v = const(n.a[kc])
                        else:
                            exc |= V(('xi', 'builtins.IndexError'))
                    elif kc >= 0 and len(S.prefix(n)) > kc:
                        try_v = const(S.prefix(n)[kc])
                    elif kc < 0 and len(S.suffix(n)) >= -kc:
                        try_v = const(S.suffix(n)[kc])
                    elif word_index(n, kc) is not None:
                        try_v = string(word_index(n, kc))
                    elif S.exact_len(n) is not None and not -S.exact_len(n) <= kc < S.exact_len(n):
                        exc |= V(('xi', 'builtins.IndexError'))
                    else:
                        try_v = string(S.any_(n.taints))
                        if n.minlen <= (kc if kc >= 0 else -kc - 1):
                            exc |= V(('xi', 'builtins.IndexError'))
                elif ok:
                    exc |= V(('xi', 'builtins.TypeError'))
                else:
                    try_v = string(S.any_(n.taints))
                    exc |= V(('xi', 'builtins.IndexError'))
            elif t == 'o':
                ob = st.heap[a[1]]
                if ob.kind == 'list':
                    d = ob.data
                    if ok and isinstance(kc, int):
                        exact = all(m == 1 for _, m in d)
                        if exact:
                            if -len(d) <= kc < len(d):
                                try_v = d[kc][0]
                            else:
                                exc |= V(('xi', 'builtins.IndexError'))
                        elif kc >= 0 and len(d) > kc and all(m == 1 for _, m in d[:kc + 1]):
                            try_v = d[kc][0]
                        elif kc < 0 and len(d) >= -kc and all(m == 1 for _, m in d[kc:]):
                            try_v = d[kc][0]
                        else:
                            try_v = seg_join_all(d) or None
                            exc |= V(('xi', 'builtins.IndexError'))
                    elif ok and not isinstance(kc, int):
                        exc |= V(('xi', 'builtins.TypeError'))
                    else:
                        try_v = seg_join_all(d) or None
                        exc |= V(('xi', 'builtins.IndexError'))
                elif ob.kind == 'dict':
                    v, miss = self.dict_get(a, k, st)
                    if miss and ob.cls == 'defaultdict' and ob.extra is None and 'default' in (ob.flags or ()):
                        pass
                    dflt = self.defaults.get(a[1]) if hasattr(self, 'defaults') else None
                    if miss and dflt is not None:
                        nv = self.call(dflt, [], {}, st, node)
                        self.set_item(V(a), k, nv, st, node, may=bool(v))
                        v |= nv
                        miss = False
                    if v:
                        try_v = v
                    if miss:
                        exc |= V(('xi', 'builtins.KeyError'))
                elif ob.kind == 'inst':
                    if ob.cls.fields and ok and isinstance(kc, int):
                        f = ob.cls.fields
                        if -len(f) <= kc < len(f):
                            try_v = ob.data.get(f[kc], UNKNOWN)
                        else:
                            exc |= V(('xi', 'builtins.IndexError'))
                    else:
                        m, _ = ob.cls.lookup('__getitem__')
                        if m is None and '$base' in ob.data:
                            try_v = self.subscript(ob.data['$base'], k, st, node)
                        elif m is not None:
                            try_v = self.call_method(V(a), '__getitem__', [k], {}, st, node)
                        elif ob.cls.ext_bases():
                            try_v = UNKNOWN
                        else:
                            exc |= V(('xi', 'builtins.TypeError'))
                else:
                    exc |= V(('xi', 'builtins.TypeError'))
            elif t in ('u', 'x', 'xi', 'match', 'file'):
                tt = self.taints(V(a), st)
                try_v = unknown(tt)
                if t == 'u':
                    exc |= V(('xi', 'builtins.KeyError'))
                    exc |= V(('xi', 'builtins.IndexError'))
            elif t == 'tok':
                try_v = UNKNOWN
            else:
                exc |= V(('xi', 'builtins.TypeError'))
            if try_v is None:
                fails += 1
            else:
                out |= try_v
        if exc:
            self.raise_exc(exc, st, node, may=fails < total)
        if not out:
            raise Bottom()
        return out

    def dict_get(self, a, k, st):
        """(value or BOT, may be missing)"""
        o = st.heap[a[1]]
        out = BOT
        miss = False
        for ka in k:
            if ka[0] == 'o':
                ka2 = self.hash_key(ka, st)
                if ka2 is not None:
                    ka = ka2
            if ka in o.data and self.hashable_const(ka):
                v, must = o.data[ka]
                out |= v
                if not must:
                    miss = True
                    if o.extra:
                        out |= o.extra[1]
            else:
                found = False
                for q, (v, must) in o.data.items():
                    r = self.eq_atoms(ka, (self.hash_key(q, st) or q) if q[0] == 'o' else q, st)
                    if r is not False:
                        out |= v
                        if r is True and must:
                            found = True
                            break
                if not found:
                    if o.extra:
                        out |= o.extra[1]
                    miss = True
        if len(k) == 0:
            miss = True
        return out, miss

    def hash_key(self, a, st):
        """Instances with __hash__/__eq__ delegating to a field: unwrap ValueWithTrace-like keys."""
        o = st.heap[a[1]]
        if o.kind == 'inst':
            h, _ = o.cls.lookup('__hash__')
            if h is not None:
                for x in h:
                    if x[0] == 'fn':
                        f = _hash_field(x[1].node)
                        if f and f in o.data and len(o.data[f]) == 1:
                            return next(iter(o.data[f]))
        return None

    def set_item(self, o, k, v, st, node, quiet=False, may=False):
        weak = len(o) > 1 or may
        for a in o:
            if a[0] == 'o':
                ob = st.heap[a[1]]
                if not quiet:
                    self.event('write', st, node, oid=a[1], what='item')
                if ob.kind == 'dict':
                    w = st.w(a[1])
                    wk = weak or w.summary
                    ka = next(iter(k)) if len(k) == 1 else None
                    if ka is not None and self.hashable_const(ka):
                        if wk:
                            old = w.data.get(ka)
                            w.data[ka] = (old[0] | v, old[1]) if old else (v, False)
                        else:
                            w.data[ka] = (v, True)
                    elif k and all(self.hashable_const(x) for x in k) and len(k) <= 24:
                        for x in k:
                            old = w.data.get(x)
                            w.data[x] = (old[0] | v, old[1]) if old else (v, False)
                    else:
                        w.extra = (w.extra[0] | k, w.extra[1] | v) if w.extra else (k, v)
                elif ob.kind == 'list':
                    ok, i = const_of(k)
                    w = st.w(a[1])
                    d = list(w.data)
                    if ok and isinstance(i, int) and all(m == 1 for _, m in d) and -len(d) <= i < len(d):
                        d[i] = ((d[i][0] | v) if (weak or w.summary) else v, 1)
                        w.data = tuple(d)
                    elif ok and isinstance(i, int) and all(m == 1 for _, m in d):
                        self.raise_exc(V(('xi', 'builtins.IndexError')), st, node, may=weak)
                        if not weak:
                            raise Bottom()
                    else:
                        w.data = tuple((e | v, m) for e, m in d)
                elif ob.kind == 'inst':
                    m, _ = ob.cls.lookup('__setitem__')
                    if m is not None:
                        self.call_method(V(a), '__setitem__', [k, v], {}, st, node)
                    elif '$base' in ob.data:
                        self.set_item(ob.data['$base'], k, v, st, node, quiet, may or weak)
                else:
                    self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=weak)
            elif a[0] in ('s', 'tup', 'c', 'i'):
                self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=weak)
                if not weak:
                    raise Bottom()

    def del_item(self, o, k, st, node):
        for a in o:
            if a[0] == 'o':
                ob = st.heap[a[1]]
                self.event('write', st, node, oid=a[1], what='del')
                if ob.kind == 'dict':
                    w = st.w(a[1])
                    ka = next(iter(k)) if len(k) == 1 else None
                    if ka in w.data:
                        if len(o) == 1 and not w.summary:
                            del w.data[ka]
                        else:
                            w.data[ka] = (w.data[ka][0], False)
                    else:
                        self.raise_exc(V(('xi', 'builtins.KeyError')), st, node, may=True)
                elif ob.kind == 'list':
                    w = st.w(a[1])
                    ok, i = const_of(k)
                    d = list(w.data)
                    if ok and isinstance(i, int) and all(m == 1 for _, m in d) and -len(d) <= i < len(d) and len(o) == 1:
                        del d[i]
                        w.data = tuple(d)
                    else:
                        w.data = ((seg_join_all(w.data), '*'),)

    def dict_update(self, d, src, st, node):
        for b in src:
            if b[0] == 'o' and st.heap[b[1]].kind == 'dict':
                ob = st.heap[b[1]]
                for k, (v, must) in list(ob.data.items()):
                    self.set_item(d, V(k), v, st, node, quiet=True, may=(not must) or len(src) > 1)
                if ob.extra:
                    self.set_item(d, ob.extra[0], ob.extra[1], st, node, quiet=True, may=True)
            elif b[0] in ('o', 'tup'):
                for e, m in self.iterate(V(b), st, node):
                    pair = self.iterate(e, st, node)
                    if len(pair) == 2:
                        self.set_item(d, pair[0][0], pair[1][0], st, node, quiet=True, may=m != 1)
            elif b[0] == 'u':
                self.set_item(d, V(('u', b[1])), V(b), st, node, quiet=True, may=True)

    # ---------------------------------------------------------- iteration

    def iterate(self, v, st, node):
        """Segments (value, multiplicity) of iterating v."""
        outs = []
        for a in v:
            outs.append(self.iterate_atom(a, st, node))
        outs = [o for o in outs if o is not None]
        if not outs:
            if v:
                self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
            raise Bottom()
        if len(outs) == 1:
            return outs[0]
        r = outs[0]
        for o in outs[1:]:
            r = join_lists(tuple(r), tuple(o))
        return list(r)

    def iterate_atom(self, a, st, node):
        t = a[0]
        if t == 'tup':
            return [(e, 1) for e in a[1]]
        if t == 's':
            n = a[1]
            if n.kind == 'lit':
                if len(n.a) <= 120:
                    return [(const(c), 1) for c in n.a]
                return [(frozenset(('s', lit(c)) for c in set(n.a)), '*')]
            if n.kind == 'cat' and all(p.kind in ('lit', 'hole') for p in n.a) and n.minlen < 200:
                out = []
                for p in n.a:
                    if p.kind == 'lit':
                        out.extend((const(c), 1) for c in p.a)
                    else:
                        out.append((string(char_of(p)), '*'))
                return out
            if n.kind == 'hole':
                return [(string(char_of(n)), '*')]
            return [(string(S.any_(n.taints)), '*')]
        if t == 'o':
            o = st.heap[a[1]]
            if o.kind == 'list':
                return list(o.data)
            if o.kind == 'dict':
                out = [(V(k), 1 if m else '?') for k, (_, m) in o.data.items()]
                if o.extra:
                    out.append((o.extra[0], '*'))
                return out
            if o.kind == 'set':
                self.event('setiter', st, node, oid=a[1], n=len(o.data) + (2 if o.extra else 0))
                out = [(V(k), 1 if o.data[k] else '?') for k in self.set_keys(o)]
                if o.extra:
                    out.append((o.extra, '*'))
                return out
            if o.kind == 'inst':
                if o.cls.fields:
                    return [(o.data.get(f, UNKNOWN), 1) for f in o.cls.fields]
                m, _ = o.cls.lookup('__iter__')
                if m is not None:
                    return self.iterate(self.call_method(V(a), '__iter__', [], {}, st, node), st, node)
                if '$base' in o.data:
                    return self.iterate(o.data['$base'], st, node)
                m, _ = o.cls.lookup('__getitem__')
                if m is not None:
                    return [(UNKNOWN, '*')]
                if o.cls.ext_bases():
                    return [(UNKNOWN, '*')]
                return None
        if t in ('u', 'x', 'xi', 'match'):
            return [(unknown(self.taints(V(a), st)), '*')]
        if t == 'file':
            return [(string(S.any_(frozenset())), '*')]
        if t == 'tok':
            return [(UNKNOWN, '*')]
        return None

    # ------------------------------------------------------------- taints

    def taints(self, v, st, depth=4):
        t = S.NOT
        for a in v:
            k = a[0]
            if k == 's':
                t |= a[1].taints
            elif k in ('u', 'i', 'f'):
                t |= a[1]
            elif k == 'tup' and depth:
                for e in a[1]:
                    t |= self.taints(e, st, depth - 1)
            elif k == 'tok':
                t |= frozenset([(a[1], 'tok')])
            elif k == 'match':
                t |= a[1]
            elif k == 'o' and depth:
                o = st.heap.get(a[1])
                if o is None:
                    continue
                if o.kind == 'list':
                    for e, _ in o.data:
                        t |= self.taints(e, st, depth - 1)
                elif o.kind == 'dict':
                    for q, (e, _) in o.data.items():
                        t |= self.taints(V(q), st, depth - 1) | self.taints(e, st, depth - 1)
                    if o.extra:
                        t |= self.taints(o.extra[0], st, depth - 1) | self.taints(o.extra[1], st, depth - 1)
                elif o.kind == 'set':
                    for q in o.data:
                        t |= self.taints(V(q), st, depth - 1)
                    t |= self.taints(o.extra or BOT, st, depth - 1)
                elif o.kind == 'inst' and o.cls.fields:
                    for e in o.data.values():
                        t |= self.taints(e, st, depth - 1)
        return t

    # -------------------------------------------------------- comparisons

    def compare(self, op, l, r, st, node):
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.compare_eq(l, r, st, node, identity=isinstance(op, ast.Is))
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return {not t for t in self.compare_eq(l, r, st, node, identity=isinstance(op, ast.IsNot))}
        if isinstance(op, ast.In):
            return self.contains(r, l, st, node)
        if isinstance(op, ast.NotIn):
            return {not t for t in self.contains(r, l, st, node)}
        # ordering
        out = set()
        bad = 0
        n = 0
        for a in l:
            for b in r:
                n += 1
                oa, ca = const_of(V(a))
                ob, cb = const_of(V(b))
                if oa and ob:
                    try:
                        if isinstance(op, ast.Lt):
                            out.add(ca < cb)
                        elif isinstance(op, ast.LtE):
                            out.add(ca <= cb)
                        elif isinstance(op, ast.Gt):
                            out.add(ca > cb)
                        else:
                            out.add(ca >= cb)
                    except TypeError:
                        bad += 1
                else:
                    ka, kb = self.num_kind(a), self.num_kind(b)
                    if ka and kb and ka != kb:
                        bad += 1
                    else:
                        out |= {True, False}
        if bad:
            self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=bad < n)
            if bad == n:
                raise Bottom()
        return out or {True, False}

    def num_kind(self, a):
        if a[0] == 's':
            return 'str'
        if a[0] in ('i', 'f'):
            return 'num'
        if a[0] == 'c':
            return 'num' if a[1] in ('int', 'float', 'bool') else a[1]
        if a[0] == 'tup':
            return 'tuple'
        return None

    def compare_eq(self, l, r, st, node=None, identity=False):
        return self.eq_values(l, r, st, identity, node)

    def eq_values(self, l, r, st, identity=False, node=None, depth=0):
        out = set()
        for a in l:
            for b in r:
                x = self.eq_atoms(a, b, st, identity, node, depth)
                if x is None:
                    out |= {True, False}
                else:
                    out.add(x)
        return out or {True, False}

    def eq_atoms(self, a, b, st, identity=False, node=None, depth=0):
        if depth > 12:
            return None
        ka, kb = a[0], b[0]
        if ka == 'u' or kb == 'u':
            return None
        if ka == 'c' and kb == 'c':
            if identity and a[1] != b[1]:
                return False
            try:
                return bool(a[2] == b[2])
            except Exception:
                return None
        if ka == 's' and kb == 's':
            x, y = a[1], b[1]
            if x.kind == 'lit' and y.kind == 'lit':
                return x.a == y.a
            if x is y and S.ground(x):
                return True
            return self.eq_strings(x, y)
        if ka == 'tok' and kb == 'tok':
            return a[1] == b[1]
        if ka == 'tup' and kb == 'tup':
            if len(a[1]) != len(b[1]):
                return False
            res = True
            for x, y in zip(a[1], b[1]):
                t = self.eq_values(x, y, st, False, node, depth + 1)
                if t == {False}:
                    return False
                if t != {True}:
                    res = None
            return res
        if ka == 'o' and kb == 'o':
            oa, ob = st.heap[a[1]], st.heap[b[1]]
            if identity:
                if a[1] == b[1]:
                    return None if oa.summary else True
                return False
            if oa.kind == 'inst' or ob.kind == 'inst':
                for x, y in ((a, b), (b, a)):
                    o = st.heap[x[1]]
                    if o.kind == 'inst':
                        m, _ = o.cls.lookup('__eq__')
                        if m is not None:
                            if depth > 8:
                                return None
                            tr = self.truth(self.call_method(V(x), '__eq__', [V(y)], {}, st, node or o.cls.node), st)
                            return next(iter(tr)) if len(tr) == 1 else None
                        if o.cls.fields:
                            return None
                if a[1] == b[1]:
                    return None if oa.summary else True
                return False
            if a[1] == b[1] and not oa.summary:
                return True
            if oa.kind != ob.kind:
                return False
            if oa.kind == 'list':
                if oa.cls != ob.cls:
                    return False
                if all(m == 1 for _, m in oa.data) and all(m == 1 for _, m in ob.data):
                    if len(oa.data) != len(ob.data):
                        return False
                    res = True
                    for (x, _), (y, _) in zip(oa.data, ob.data):
                        t = self.eq_values(x, y, st, False, node, depth + 1)
                        if t == {False}:
                            return False
                        if t != {True}:
                            res = None
                    return res
                na = sum(1 for _, m in oa.data if m == 1)
                nb = sum(1 for _, m in ob.data if m == 1)
                if not oa.data and nb or not ob.data and na:
                    return False
                return None
            if oa.kind == 'dict':
                if oa.extra or ob.extra:
                    return None
                if all(m for _, m in oa.data.values()) and all(m for _, m in ob.data.values()):
                    if set(oa.data) != set(ob.data):
                        return False if all(self.lit_key(k) for k in list(oa.data) + list(ob.data)) else None
                    res = True
                    for k in oa.data:
                        t = self.eq_values(oa.data[k][0], ob.data[k][0], st, False, node, depth + 1)
                        if t == {False}:
                            return False
                        if t != {True}:
                            res = None
                    return res
                return None
            return None
        if ka in ('k', 'fn', 'mod', 'x', 'bm', 'xm') and kb in ('k', 'fn', 'mod', 'x', 'bm', 'xm'):
            return a == b
        if ka in ('i', 'f') or kb in ('i', 'f'):
            o = b if ka in ('i', 'f') else a
            if o[0] in ('i', 'f') or (o[0] == 'c' and o[1] in ('int', 'float', 'bool')):
                return None
            if o[0] == 'o' and st.heap[o[1]].kind == 'inst':
                pass
            else:
                return False
        for x, y in ((a, b), (b, a)):
            if x[0] == 'o' and not identity:
                o = st.heap[x[1]]
                if o.kind == 'inst':
                    m, _ = o.cls.lookup('__eq__')
                    if m is not None:
                        if depth > 8:
                            return None
                        tr = self.truth(self.call_method(V(x), '__eq__', [V(y)], {}, st, node or o.cls.node), st)
                        return next(iter(tr)) if len(tr) == 1 else None
                if o.kind == 'list' and y[0] == 'tup':
                    if o.cls == 'list':
                        return False
                    return None
        if ka == 'tok' or kb == 'tok':
            o = a if kb == 'tok' else b
            t = b if kb == 'tok' else a
            # a token is an opaque value of its own, distinct from constants
            return False
        return False if ka != kb else None

    def lit_key(self, k):
        return k[0] == 'c' or (k[0] == 's' and k[1].kind == 'lit')

    def eq_strings(self, x, y):
        # incompatible prefixes / suffixes / lengths
        px, py = S.prefix(x), S.prefix(y)
        n = min(len(px), len(py))
        if px[:n] != py[:n]:
            return False
        sx, sy = S.suffix(x), S.suffix(y)
        n = min(len(sx), len(sy))
        if n and sx[-n:] != sy[-n:]:
            return False
        lx, ly = S.exact_len(x), S.exact_len(y)
        if lx is not None and ly is not None and lx != ly:
            return False
        if lx is not None and y.minlen > lx or ly is not None and x.minlen > ly:
            return False
        if x.kind == 'alt' or y.kind == 'alt':
            rs = {self.eq_strings(p, q) if not (p.kind == 'lit' and q.kind == 'lit') else p.a == q.a
                  for p in S.alts(x) for q in S.alts(y)}
            return False if rs == {False} else None
        if x is y:
            return None
        # named unknowns are pairwise distinct, and distinct from every literal
        if S.ground(x) and S.ground(y):
            hx = {p for p in S.parts(x) if p.kind == 'hole'}
            hy = {p for p in S.parts(y) if p.kind == 'hole'}
            if hx != hy:
                return False
            nx, ny = list(S.parts(x)), list(S.parts(y))
            if sorted((p.uid for p in nx if p.kind == 'hole')) == sorted((p.uid for p in ny if p.kind == 'hole')) \
                    and sum(len(p.a) for p in nx if p.kind == 'lit') != \
                    sum(len(p.a) for p in ny if p.kind == 'lit'):
                return False
        return None

    set_order = False        # the other one of two opposite iteration orders of sets

    def set_keys(self, o):
        keys = sorted(o.data, key=repr)
        if self.set_order and not all(k[0] == 'c' and isinstance(k[1], int) for k in keys):
            keys.reverse()
        return keys

    def contains(self, c, x, st, node=None):
        """Possible values of `x in c`."""
        out = set()
        for a in c:
            t = a[0]
            if t == 'tup':
                res = False
                for e in a[1]:
                    r = self.eq_values(x, e, st)
                    if r == {True}:
                        res = True
                        break
                    if True in r:
                        res = None
                out |= {True, False} if res is None else {res}
            elif t == 's':
                n = a[1]
                for b in x:
                    if b[0] == 's' and b[1].kind == 'lit' and n.kind == 'lit':
                        out.add(b[1].a in n.a)
                    elif b[0] == 's' and S.encode(n) is not None and S.encode(b[1]) is not None:
                        out.add(S.encode(b[1]) in S.encode(n))
                    elif b[0] == 's' and b[1].kind == 'lit' and any(
                            p.kind == 'lit' and b[1].a in p.a for p in S.parts(n)):
                        out.add(True)
                    elif b[0] == 's' and n.kind == 'alt' and all(S.encode(x) is not None for x in n.a) and \
                            S.encode(b[1]) is not None:
                        out |= {S.encode(b[1]) in S.encode(x) for x in n.a}
                    elif b[0] == 's':
                        out |= {True, False}
                    elif b[0] == 'u':
                        out |= {True, False}
                    else:
                        self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=len(c) > 1 or len(x) > 1)
                        if len(c) == 1 and len(x) == 1:
                            raise Bottom()
            elif t == 'o':
                o = st.heap[a[1]]
                if o.kind == 'list':
                    res = False
                    for e, m in o.data:
                        r = self.eq_values(x, e, st)
                        if r == {True} and m == 1:
                            res = True
                            break
                        if True in r:
                            res = None
                    out |= {True, False} if res is None else {res}
                elif o.kind in ('dict', 'set'):
                    for b in x:
                        if b[0] == 'o':
                            b = self.hash_key(b, st) or b
                        keys = o.data
                        if b in keys and self.hashable_const(b):
                            must = keys[b][1] if o.kind == 'dict' else keys[b]
                            out |= {True} if must else {True, False}
                        else:
                            res = False
                            for q0 in keys:
                                q = q0
                                if q[0] == 'o':
                                    q = self.hash_key(q, st) or q
                                r = self.eq_atoms(b, q, st)
                                if r is True and (keys[q0][1] if o.kind == 'dict' else keys[q0]):
                                    res = True
                                    break
                                if r is not False:
                                    res = None
                            ex = o.extra[0] if (o.kind == 'dict' and o.extra) else (o.extra if o.kind == 'set' else None)
                            if res is False and ex and True in self.eq_values(V(b), ex, st):
                                res = None
                            out |= {True, False} if res is None else {res}
                elif o.kind == 'inst':
                    m, _ = o.cls.lookup('__contains__')
                    if m is None and '$base' in o.data:
                        out |= self.contains(o.data['$base'], x, st, node)
                    elif m is not None:
                        out |= self.truth(self.call_method(V(a), '__contains__', [x], {}, st, node), st)
                    else:
                        out |= {True, False}
            elif t in ('u', 'x', 'xi', 'match', 'tok', 'k'):
                out |= {True, False}
            else:
                self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=len(c) > 1)
                if len(c) == 1:
                    raise Bottom()
        return out or {True, False}

    # ---------------------------------------------------------- operators

    def e_BinOp(self, e, st):
        l = self.ev(e.left, st)
        r = self.ev(e.right, st)
        return self.binop(e.op, l, r, st, e)

    def binop(self, op, l, r, st, node):
        if isinstance(op, ast.Mod) and any(a[0] == 's' for a in l):
            return self.str_percent(l, r, st, node)
        out = BOT
        bad = 0
        n = 0
        strs = []
        for a in l:
            for b in r:
                n += 1
                oa, ca = const_of(V(a))
                ob, cb = const_of(V(b))
                if isinstance(op, ast.Add) and a[0] == 's' and b[0] == 's':
                    strs.append(S.cat([a[1], b[1]]))
                    continue
                if oa and ob and a[0] != 'tup' and b[0] != 'tup':
                    try:
                        v = _OPS[type(op)](ca, cb)
                        if isinstance(v, str) and len(v) > 100000:
                            v = None
                        out |= const(v) if not isinstance(v, tuple) else UNKNOWN
                    except Exception:
                        bad += 1
                        self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=True)
                    continue
                if isinstance(op, ast.Add):
                    la, lb = self.list_segs(a, st), self.list_segs(b, st)
                    if la is not None and lb is not None:
                        if a[0] == 'tup' and b[0] == 'tup':
                            out |= V(('tup', a[1] + b[1]))
                        else:
                            cls = 'list' if a[0] == 'o' and st.heap[a[1]].cls == 'list' else 'tuple'
                            out |= self.new_list(st, node, tuple(la) + tuple(lb), tag=('add', a, b), cls=cls)
                        continue
                    if (a[0] == 's' and b[0] != 'u') or (b[0] == 's' and a[0] != 'u'):
                        bad += 1
                        self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=True)
                        continue
                if isinstance(op, ast.Mult):
                    if a[0] == 's' and (b[0] == 'i' or ob):
                        out |= string(S.star(a[1]))
                        continue
                    la = self.list_segs(a, st)
                    if la is not None and ob and isinstance(cb, int) and len(la) * cb < 200:
                        out |= self.new_list(st, node, tuple(la) * cb, tag=('mul', a))
                        continue
                if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and a[0] == 'o' and b[0] == 'o':
                    views = [c for c in (a, b) if st.heap[c[1]].kind == 'list' and st.heap[c[1]].cls == 'iter']
                    if views and all(c in views or st.heap[c[1]].kind in ('set', 'list') for c in (a, b)):
                        # views of dictionaries behave like sets
                        def as_set(c):
                            if st.heap[c[1]].kind == 'set':
                                return c
                            (q,) = self.call(V(('x', 'builtins.set')), [V(c)], {}, st, node)
                            return q
                        a, b = as_set(a), as_set(b)
                    x, y = st.heap[a[1]], st.heap[b[1]]
                    if x.kind == 'set' and y.kind == 'set' and isinstance(op, ast.BitXor):
                        d1 = self.binop(ast.Sub(), V(a), V(b), st, node)
                        d2 = self.binop(ast.Sub(), V(b), V(a), st, node)
                        out |= self.binop(ast.BitOr(), d1, d2, st, node)
                        continue
                    if x.kind == 'set' and y.kind == 'set':
                        if isinstance(op, ast.BitOr):
                            d = dict(x.data)
                            for q, m in y.data.items():
                                d[q] = d.get(q, False) or m
                            out |= V(self.alloc(st, 'set', node, 'set', d, x.extra | y.extra, tag=('or', a, b)))
                        elif isinstance(op, ast.Sub):
                            d = {q: (m and q not in y.data and not y.extra) for q, m in x.data.items()
                                 if not y.data.get(q)}
                            out |= V(self.alloc(st, 'set', node, 'set', d, x.extra, tag=('sub', a, b)))
                        else:
                            d = {q: m and y.data.get(q, False) for q, m in x.data.items() if q in y.data or y.extra}
                            out |= V(self.alloc(st, 'set', node, 'set', d, x.extra & y.extra if x.extra else BOT, tag=('and', a, b)))
                        continue
                    if x.kind == 'dict' and y.kind == 'dict' and isinstance(op, ast.BitOr):
                        nd = self.new_dict(st, node, dict(x.data), x.extra, tag=('or', a, b))
                        self.dict_update(nd, V(b), st, node)
                        out |= nd
                        continue
                t = self.taints(V(a), st) | self.taints(V(b), st)
                nk = (self.num_kind(a), self.num_kind(b))
                if nk == ('num', 'num'):
                    out |= V(('i', t))
                elif a[0] in ('u', 'x', 'tok') or b[0] in ('u', 'x', 'tok'):
                    out |= string(S.any_(t)) if (a[0] == 's' or b[0] == 's') and isinstance(op, ast.Add) else unknown(t)
                else:
                    bad += 1
                    self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=True)
        if strs:
            if len(strs) > 12:
                # factor the product: alternatives concatenated once
                A = S.alt([a[1] for a in l if a[0] == 's'])
                B = S.alt([b[1] for b in r if b[0] == 's'])
                out |= string(S.cat([A, B]))
            else:
                out |= frozenset(('s', x) for x in strs)
        if not out:
            raise Bottom()
        return out

    def list_segs(self, a, st):
        if a[0] == 'tup':
            return [(e, 1) for e in a[1]]
        if a[0] == 'o' and st.heap[a[1]].kind == 'list':
            return list(st.heap[a[1]].data)
        return None

    def to_str(self, v, st, node, rep=False):
        """String node for str(v)."""
        nodes = []
        for a in v:
            k = a[0]
            if k == 's':
                if rep:
                    if a[1].kind == 'lit':
                        nodes.append(lit(repr(a[1].a)))
                    else:
                        nodes.append(S.cat([lit("'"), S.any_(a[1].taints), lit("'")]))
                else:
                    nodes.append(a[1])
            elif k == 'c':
                nodes.append(lit(repr(a[2]) if rep else str(a[2])))
            elif k in ('i', 'f'):
                nodes.append(S.any_(frozenset((l, 'num') for l, _ in a[1])))
            elif k == 'tok':
                nodes.append(S.hole(a[1], 'tok'))
            elif k == 'o' and st.heap[a[1]].kind == 'inst':
                o = st.heap[a[1]]
                done = False
                for mname in (('__repr__',) if rep else ('__str__', '__repr__')):
                    m, _ = o.cls.lookup(mname)
                    if m is not None and any(x[0] == 'fn' for x in m):
                        sv = self.call_method(V(a), mname, [], {}, st, node)
                        nodes.append(S.alt([x[1] if x[0] == 's' else S.any_(self.taints(V(x), st)) for x in sv]))
                        done = True
                        break
                if not done:
                    t = S.NOT
                    for f, x in o.data.items():
                        t |= self.taints(x, st, 2)
                    nodes.append(S.any_(t))
            else:
                nodes.append(S.any_(self.taints(V(a), st)))
        if not nodes:
            return S.EMPTY
        return S.alt(nodes)

    def str_percent(self, l, r, st, node):
        out = BOT
        for a in l:
            if a[0] != 's':
                out |= unknown(self.taints(r, st))
                continue
            tmpl = a[1]
            if not all(p.kind == 'lit' for p in S.parts(tmpl)):
                # template itself not constant
                self.event('format', st, node, template=tmpl, args=[r])
                if tmpl.kind == 'alt' and all(x.kind == 'lit' for x in tmpl.a):
                    for x in S.alts(tmpl):
                        out |= self.fmt_lit(x.a, r, st, node)
                    continue
                # treat holes as opaque, format the literal parts in order
                args = self.percent_args(r, st)
                idx = [0]
                pieces = []
                for p in S.parts(tmpl):
                    if p.kind == 'lit':
                        pieces.append(self.fmt_piece(p.a, args, idx, r, st, node))
                    else:
                        pieces.append(p)
                out |= string(S.cat(pieces))
                continue
            out |= self.fmt_lit(tmpl.a, r, st, node)
        return out

    def percent_args(self, r, st):
        if len(r) == 1:
            (a,) = r
            if a[0] == 'tup':
                return list(a[1])
            if a[0] == 'o' and st.heap[a[1]].kind == 'list' and st.heap[a[1]].cls == 'tuple':
                d = st.heap[a[1]].data
                if all(m == 1 for _, m in d):
                    return [e for e, _ in d]
                return None
        elif any(a[0] == 'tup' for a in r):
            ts = [a[1] for a in r if a[0] == 'tup']
            if len(ts) == len(r) and len({len(t) for t in ts}) == 1:
                return [frozenset().union(*[t[i] for t in ts]) for i in range(len(ts[0]))]
            return None
        return [r]

    def fmt_lit(self, s, r, st, node):
        idx = [0]
        args = self.percent_args(r, st)
        n = self.fmt_piece(s, args, idx, r, st, node)
        return string(n)

    def fmt_piece(self, s, args, idx, r, st, node):
        pieces = []
        pos = 0
        for m in re.finditer(r'%(\((\w+)\))?([-#0 +]*)(\*|\d+)?(\.\d+)?([a-zA-Z%])', s):
            pieces.append(lit(s[pos:m.start()]))
            pos = m.end()
            conv = m.group(6)
            if conv == '%':
                pieces.append(lit('%'))
                continue
            if m.group(2):
                v = BOT
                for a in r:
                    if a[0] == 'o' and st.heap[a[1]].kind == 'dict':
                        v |= self.dict_get(a, const(m.group(2)), st)[0]
                    else:
                        v |= unknown(self.taints(V(a), st))
            elif args is None:
                v = unknown(self.taints(r, st))
            elif idx[0] < len(args):
                v = args[idx[0]]
                idx[0] += 1
            else:
                self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
                raise Bottom()
            if conv in 'di':
                bad = frozenset(a for a in v if a[0] == 's' or (a[0] == 'c' and a[2] is None))
                if bad:
                    self.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=bad != v)
                    v -= bad
                    if not v:
                        raise Bottom()
            p = self.to_str(v, st, node, rep=(conv in 'ra'))
            if m.group(3) or m.group(4) or m.group(5) or conv in 'xXoeEfFgGcu':
                ok, c = const_of(v)
                if ok and isinstance(c, (int, float, str)):
                    try:
                        p = lit(m.group(0).replace(m.group(1) or '', '') % c)
                    except Exception:
                        p = S.any_(p.taints)
                elif p.kind == 'lit':
                    p = S.any_(p.taints)
                else:
                    p = S.cat([S.any_(), p, S.any_()])
            pieces.append(p)
        pieces.append(lit(s[pos:]))
        return S.cat(pieces)

    def e_JoinedStr(self, e, st):
        pieces = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                pieces.append(lit(str(v.value)))
            else:
                x = self.ev(v.value, st)
                n = self.to_str(x, st, v, rep=v.conversion in (114, 97))
                ok, c = const_of(x)
                spec = v.format_spec and v.format_spec.values
                if spec and len(spec) == 1 and isinstance(spec[0], ast.Constant) and ok and v.conversion < 0 \
                        and isinstance(c, (int, float, str)):
                    try:
                        n = lit(format(c, spec[0].value))
                    except ValueError:
                        n = S.any_()
                elif v.format_spec is not None:
                    n = S.cat([S.any_(), n, S.any_()]) if n.kind != 'lit' else S.any_()
                pieces.append(n)
        return string(S.cat(pieces))

    def e_FormattedValue(self, e, st):
        return string(self.to_str(self.ev(e.value, st), st, e))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value else NONE
        fr = self.frames[-1]
        if fr.yields is not None:
            w = st.w(fr.yields)
            if w.summary:
                w.data = ((seg_join_all(w.data) | v, '*'),)
            else:
                w.data = w.data + ((v, 1),)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        fr = self.frames[-1]
        if fr.yields is not None:
            w = st.w(fr.yields)
            w.data = w.data + tuple(self.iterate(v, st, e))
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # --------------------------------------------------------- attributes

    def get_attr(self, v, name, st, node, quiet=False):
        out = BOT
        fails = 0
        for a in v:
            r = self.attr_atom(a, name, st, node)
            if r is None and self.is_stub(a, st) and not name.startswith('_'):
                out |= self.gap(name, node)
            elif r is None:
                fails += 1
            else:
                val, may_miss = r
                out |= val
                if may_miss:
                    self.raise_exc(V(('xi', 'builtins.AttributeError')), st, node, may=True)
        if fails:
            self.event('attrfail', st, node, name=name, value=v)
            self.raise_exc(V(('xi', 'builtins.AttributeError')), st, node, may=fails < len(v))
        if not out:
            raise Bottom()
        return out

    def gap(self, what, node):
        """Something a stand-in for a library lacks."""
        self.undecided += 1
        self.note('not modelled: ' + what, node)
        return unknown()

    def is_stub(self, a, st):
        if a[0] == 'mod':
            return a[1] in self.stub_modules
        cls = st.heap[a[1]].cls if a[0] == 'o' and st.heap[a[1]].kind == 'inst' else a[1] if a[0] == 'k' else None
        return isinstance(cls, ClassVal) and any(
            isinstance(c, ClassVal) and c.module in self.stub_modules for c in cls.get_mro())

    def attr_atom(self, a, name, st, node):
        """(value, may be missing) or None when the attribute does not exist."""
        k = a[0]
        if k == 'o':
            o = st.heap[a[1]]
            if o.kind == 'inst':
                if name in o.data:
                    v = o.data[name]
                    may = bool(o.extra) and name in o.extra
                    if may:
                        cv, _ = o.cls.lookup(name)
                        if cv is not None:
                            return v | self.bind_class_attr(cv, a, st, node), False
                    return v, may
                cv, c = o.cls.lookup(name)
                if cv is not None:
                    return self.bind_class_attr(cv, a, st, node), False
                if name == '__class__':
                    return V(('k', o.cls)), False
                if name == '__dict__':
                    return self.new_dict(st, node, {('s', lit(n)): (x, True) for n, x in o.data.items()}), False
                m, _ = o.cls.lookup('__getattr__')
                if m is not None:
                    return self.call_method(V(a), '__getattr__', [const(name)], {}, st, node), False
                if o.cls.fields is not None and name in ('_asdict', '_replace', '_fields', 'index', 'count'):
                    return V(('xm', a, name)), False
                if '$base' in o.data:
                    return self.attr_atom(next(iter(o.data['$base'])), name, st, node)
                ext = [b for b in o.cls.ext_bases() if b != 'builtins.object']
                if ext:
                    if name in ('args', '__str__', 'with_traceback', '__init__', '__cause__'):
                        return V(('xm', a, name)) if name != 'args' else UNKNOWN, False
                    if all(b.startswith('builtins.') for b in ext):
                        b = getattr(builtins, ext[0][9:], None)
                        if b is not None and not hasattr(b, name):
                            return None
                    return unknown(), False
                if name in ('__init__', '__eq__', '__ne__', '__hash__', '__repr__', '__str__', '__doc__', '__module__'):
                    return V(('xm', a, name)), False
                return None
            if o.kind in ('list', 'dict', 'set'):
                pt = {'list': tuple if o.cls == 'tuple' else list, 'dict': dict,
                      'set': frozenset if o.cls == 'frozenset' else set}[o.kind]
                if hasattr(pt, name) or (o.cls == 'OrderedDict' and name == 'move_to_end') or \
                        (o.cls == 'deque' and name in ('popleft', 'appendleft', 'extendleft', 'rotate')) or \
                        (o.cls == 'iter'):
                    return V(('xm', a, name)), False
                return None
            return unknown(), False
        if k == 's':
            return (V(('xm', a, name)), False) if hasattr(str, name) else None
        if k == 'tup':
            return (V(('xm', a, name)), False) if hasattr(tuple, name) else None
        if k == 'c':
            if a[2] is None or a[1] in ('int', 'float', 'bool', 'bytes'):
                return (V(('xm', a, name)), False) if hasattr(a[2], name) else None
            return unknown(), False
        if k in ('i', 'f'):
            return (V(('xm', a, name)), False) if hasattr(int, name) else None
        if k == 'mod':
            o = st.heap.get(('M', a[1]))
            if o is None:
                self.load_module(a[1], st)
                o = st.heap.get(('M', a[1]))
            if o is not None and name in o.data:
                return o.data[name], False
            full = a[1] + '.' + name
            if full in self.p.modules:
                self.load_module(full, st)
                return V(('mod', full)), False
            if name in ('__name__', '__doc__', '__file__'):
                return unknown(), False
            return None
        if k == 'x':
            if a[1].startswith('builtins.'):
                b = getattr(builtins, a[1][9:], None)
                if b is not None and not hasattr(b, name):
                    return None
                if name == '__name__':
                    return const(a[1][9:]), False
            full = a[1] + '.' + name
            if full in self.ext_values:
                return self.ext_values[full], False
            return V(('x', full)), False
        if k == 'k':
            c = a[1]
            v, owner = c.lookup(name)
            if v is not None:
                out = BOT
                for x in v:
                    if x[0] == 'fn' and x[1].kind == 'classmethod':
                        out |= V(('bm', x, a))
                    else:
                        out |= V(x)
                return out, False
            if name == '__name__':
                return const(c.name), False
            if name == '__mro__' or name == '__bases__':
                return V(('tup', tuple(V(('k', b)) for b in c.get_mro() if isinstance(b, ClassVal)))), False
            if c.fields is not None and name in ('_fields', '_make'):
                return unknown(), False
            if name in ('__dict__', '__module__', '__qualname__', '__doc__'):
                return unknown(), False
            if [b for b in c.ext_bases() if b != 'builtins.object'] or hasattr(object, name):
                return V(('x', 'builtins.object.' + name)), False
            return None
        if k == 'super':
            cls, self_atom = a[1], a[2]
            o = st.heap.get(self_atom[1]) if self_atom[0] == 'o' else None
            mro = (o.cls if o is not None and o.kind == 'inst' else cls).get_mro()
            if cls in mro:
                mro = mro[mro.index(cls) + 1:]
            for c in mro:
                if isinstance(c, ClassVal) and name in c.attrs:
                    return self.bind_class_attr(c.attrs[name], self_atom, st, node), False
            return V(('xm', self_atom, 'super.' + name)), False
        if k == 'fn':
            if name in ('__name__', '__qualname__'):
                return const(a[1].qualname.rsplit('.', 1)[-1]), False
            return unknown(), False
        if k == 'bm':
            if name == '__self__':
                return V(a[2]), False
            return unknown(), False
        if k in ('u', 'xi', 'tok'):
            if k == 'u':
                return V(('xm', a, name)) if False else V(('u', a[1])), False
            return unknown(self.taints(V(a), st)), False
        if k in ('rx', 'match', 'file'):
            return V(('xm', a, name)), False
        if k == 'anyexc':
            return unknown(), False
        return unknown(self.taints(V(a), st)), False

    def bind_class_attr(self, cv, self_atom, st, node):
        out = BOT
        for x in cv:
            if x[0] == 'fn':
                if x[1].kind == 'staticmethod':
                    out |= V(x)
                elif x[1].kind == 'property':
                    out |= self.call(V(x), [V(self_atom)], {}, st, node)
                elif x[1].kind == 'classmethod':
                    out |= V(('bm', x, ('k', st.heap[self_atom[1]].cls)))
                else:
                    out |= V(('bm', x, self_atom))
            else:
                out |= V(x)
        return out

    def write_attr(self, v, name, val, st, node):
        for a in v:
            if a[0] == 'o':
                o = st.heap[a[1]]
                self.event('write', st, node, oid=a[1], what='attr:' + name, value=val)
                if o.kind != 'inst':
                    self.raise_exc(V(('xi', 'builtins.AttributeError')), st, node, may=len(v) > 1)
                    continue
                w = st.w(a[1])
                if (len(v) > 1 or w.summary) and name in w.data:
                    w.data[name] = normalize(w.data[name] | val)
                else:
                    w.data[name] = val
                    if w.extra and name in w.extra:
                        w.extra = w.extra - {name}
            elif a[0] == 'x':
                self.event('extwrite', st, node, target=a[1] + '.' + name, value=val)
            elif a[0] == 'k':
                a[1].attrs[name] = val
            elif a[0] == 'mod':
                st.w(('M', a[1])).data[name] = val
            elif a[0] in ('s', 'c', 'i', 'tup'):
                self.raise_exc(V(('xi', 'builtins.AttributeError')), st, node, may=len(v) > 1)

    # --------------------------------------------------------------- calls

    def call_method(self, v, name, args, kwargs, st, node):
        return self.call(self.get_attr(v, name, st, node), args, kwargs, st, node)

    def call(self, fv, args, kwargs, st, node):
        if len(fv) == 1:
            return self.call_atom(next(iter(fv)), args, kwargs, st, node)
        out = BOT
        end = None
        for a in sorted(fv, key=_atom_order):
            b = st.fork()
            try:
                out |= self.call_atom(a, args, kwargs, b, node)
                end = join_states(end, b)
            except Bottom:
                pass
        if end is None:
            raise Bottom()
        st.assign(end)
        return normalize(out)

    def call_atom(self, a, args, kwargs, st, node):
        k = a[0]
        if k == 'fn':
            return self.call_func(a[1], args, kwargs, st, node)
        if k == 'bm':
            if a[1][0] == 'fn':
                return self.call_func(a[1][1], [V(a[2])] + args, kwargs, st, node)
            return self.call_atom(a[1], [V(a[2])] + args, kwargs, st, node)
        if k == 'k':
            return self.instantiate(a[1], args, kwargs, st, node)
        if k == 'x':
            return self.call_ext(a[1], args, kwargs, st, node)
        if k == 'xm':
            return self.call_builtin_method(a[1], a[2], args, kwargs, st, node)
        if k == 'pf':
            kw = dict(a[3])
            kw.update(kwargs)
            return self.call(a[1], list(a[2]) + args, kw, st, node)
        if k == 'o':
            o = st.heap[a[1]]
            if o.kind == 'inst':
                return self.call_method(V(a), '__call__', args, kwargs, st, node)
        if k in ('u', 'tok', 'xi', 'match', 'rx', 'file', 'super', 'anyexc'):
            return unknown(self.args_taints(args, kwargs, st) | self.taints(V(a), st))
        # not callable
        self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
        raise Bottom()

    def args_taints(self, args, kwargs, st):
        t = S.NOT
        for x in list(args) + list(kwargs.values()):
            if isinstance(x, tuple):
                x = x[1]
            t |= self.taints(x, st)
        return t

    def instantiate(self, c, args, kwargs, st, node):
        m = self.class_models.get(c.qualname)
        if m is not None:
            r = m(self, args, kwargs, st, node, c)
            if r is not None:
                return r
        a = self.alloc(st, 'inst', node, c, {}, tag=('new', c.qualname))
        base = container_base(c)
        if base is not None:
            b = self.alloc(st, base[0], node, base[1], () if base[0] == 'list' else {}, tag=('base', c.qualname))
            st.w(a[1]).data['$base'] = V(b)
            if c.lookup('__init__')[0] is None:
                self.base_init(b, args, kwargs, st, node)
        if c.fields is not None and c.lookup('__init__')[0] is None:
            w = st.w(a[1])
            for i, f in enumerate(c.fields):
                if i < len(args):
                    x = args[i]
                    w.data[f] = x[1] if isinstance(x, tuple) else x
                elif f in kwargs:
                    x = kwargs[f]
                    w.data[f] = x[1] if isinstance(x, tuple) else x
                else:
                    ex = [x[1] for x in args if isinstance(x, tuple)]
                    if ex:
                        w.data[f] = frozenset().union(*ex)
                    else:
                        self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
                        raise Bottom()
            return V(a)
        init, owner = c.lookup('__init__')
        if init is not None:
            self.call(self.bind_class_attr(init, a, st, node), args, kwargs, st, node)
        elif args and not [b for b in c.ext_bases() if b != 'builtins.object']:
            self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
            raise Bottom()
        return V(a)

    def base_init(self, b, args, kwargs, st, node):
        o = st.heap[b[1]]
        if not args:
            return
        if o.kind == 'list':
            st.w(b[1]).data = tuple(self.iterate(args[0], st, node))
        elif o.kind == 'dict':
            self.dict_update(V(b), args[0], st, node)
        else:
            self.call_method(V(b), 'update', [args[0]], {}, st, node)

    def base_of(self, a, st):
        """The builtin container inside an instance of a list/dict/set subclass."""
        o = st.heap[a[1]]
        if o.kind == 'inst' and '$base' in o.data:
            return next(iter(o.data['$base']))
        return None

    def bind_args(self, f, args, kwargs, st, node):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        plain = []
        tail = None          # imprecise remaining positionals
        for x in args:
            if isinstance(x, tuple):
                tail = (tail or BOT) | x[1]
            elif tail is not None:
                tail |= x
            else:
                plain.append(x)
        extra = kwargs.pop('**', None) if '**' in kwargs else None
        for i, n in enumerate(pos):
            if i < len(plain):
                env[n] = plain[i]
                if n in kwargs and n not in [x.arg for x in a.posonlyargs]:
                    if f.module in self.stub_modules:
                        raise StubGap
                    self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
                    raise Bottom()
        rest = plain[len(pos):]
        if a.vararg:
            segs = [(x, 1) for x in rest]
            if tail is not None:
                segs.append((tail, '*'))
            if tail is None:
                env[a.vararg.arg] = V(('tup', tuple(rest)))
            else:
                env[a.vararg.arg] = self.new_list(st, f.node, segs, tag='va', cls='tuple')
        elif rest:
            if f.module in self.stub_modules:
                raise StubGap
            self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
            self.event('callmismatch', st, node, func=f, why='too many positional arguments')
            raise Bottom()
        kw_extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        may_kw = {}
        for n, v in kwargs.items():
            if isinstance(v, tuple):
                may_kw[n] = v[1]
                continue
            if n in pos and n not in env or n in kwonly:
                env[n] = v
            elif a.kwarg:
                kw_extra[n] = (v, True)
            else:
                if f.module in self.stub_modules:
                    raise StubGap
                self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
                self.event('callmismatch', st, node, func=f, why='unexpected keyword ' + n)
                raise Bottom()
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                v = f.defaults[j] if j >= 0 else None
                if n in may_kw:
                    v = (v or BOT) | may_kw.pop(n)
                if tail is not None:
                    v = (v or BOT) | tail
                if extra is not None:
                    v = (v or BOT) | extra
                if v is None:
                    if f.module in self.stub_modules:
                        raise StubGap
                    self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
                    self.event('callmismatch', st, node, func=f, why='missing argument ' + n)
                    raise Bottom()
                env[n] = v
        for i, n in enumerate(kwonly):
            if n not in env:
                v = f.kwdefaults[i]
                if n in may_kw:
                    v = (v or BOT) | may_kw.pop(n)
                if extra is not None:
                    v = (v or BOT) | extra
                if v is None:
                    if f.module in self.stub_modules:
                        raise StubGap
                    self.raise_exc(V(('xi', 'builtins.TypeError')), st, node)
                    raise Bottom()
                env[n] = v
        if a.kwarg:
            for n, v in may_kw.items():
                kw_extra[n] = (v, False)
            d = {('s', lit(n)): v for n, v in kw_extra.items()}
            env[a.kwarg.arg] = self.new_dict(st, f.node, d,
                                             (string(S.any_()), extra) if extra is not None else None, tag='kw')
        return env

    def call_func(self, f, args, kwargs, st, node):
        m = self.models.get(f.qualname)
        if m is not None:
            r = m(self, args, kwargs, st, node, f)
            if r is not None:
                return r
        self.funcs_seen.add(f.qualname)
        same = [u for (g, _), u in zip(self.callstack, self.und_at) if g.node is f.node]
        depth = len(same)
        if len(self.callstack) > (MAX_DEPTH if not same or same[0] != self.undecided else 400) or \
                depth > MAX_RECURSION and same[-MAX_RECURSION] != self.undecided:
            self.note('recursion cut at ' + f.qualname, node)
            return unknown(self.args_taints(args, kwargs, st))
        old = self.push_ctx(('call', id(node), id(f.node)))
        try:
            env = self.bind_args(f, args, dict(kwargs), st, node)
            self.event('call', st, node, func=f, env=env)
        except StubGap:
            self.ctx = old
            return self.gap('call of ' + f.qualname, node)
        except Bottom:
            self.ctx = old
            raise
        oid = ('F', id(f.node), self.ctx)
        st.heap[oid] = HObj('frame', None, env, None, False, st.owner, frozenset(), oid)
        fr = Frame(oid, f, f.module, f.closure)
        self.frames.append(fr)
        self.callstack.append((f, node))
        self.und_at.append(self.undecided)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                return v
            if f.is_gen:
                (ya,) = self.new_list(st, f.node, (), tag='gen', cls='iter')
                fr.yields = ya[1]
            end = self.exec_block(f.node.body, st)
            rets = fr.returns
            if end is not None:
                rets.append((NONE, end))
            if not rets:
                raise Bottom()
            v = BOT
            out = None
            for rv, rs in rets:
                v |= rv
                out = join_states(out, rs)
            if out is not st:
                st.assign(out)
            if f.is_gen:
                return V(('o', fr.yields))
            return normalize(v)
        finally:
            self.callstack.pop()
            self.und_at.pop()
            self.frames.pop()
            self.ctx = old
            if not _has_closure(f.node) and not f.is_gen:
                st.heap.pop(oid, None)

    def call_ext(self, name, args, kwargs, st, node):
        self.event('ext', st, node, name=name, args=args, kwargs=kwargs)
        m = self.ext_models.get(name)
        if m is not None:
            r = m(self, args, kwargs, st, node)
            if r is not None:
                return r
        if name.startswith('builtins.'):
            b = getattr(builtins, name[9:], None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return V(('xi', name))
        self.note('external ' + name, node)
        last = name.rsplit('.', 1)[-1]
        if last.endswith('Error') or last.endswith('Exception'):
            return V(('xi', name))
        if self.collectors and not name.startswith('builtins.'):
            self.raise_exc(V(('anyexc',)), st, node, may=True)
        return unknown(self.args_taints(args, kwargs, st))

    def call_builtin_method(self, recv, name, args, kwargs, st, node):
        from . import builtins_model
        return builtins_model.method(self, recv, name, args, kwargs, st, node)

    def list_extend(self, lst, it, st, node, weak=False):
        segs = self.iterate(it, st, node)
        for a in lst:
            if a[0] == 'o' and st.heap[a[1]].kind == 'list':
                self.event('write', st, node, oid=a[1], what='extend')
                w = st.w(a[1])
                if w.summary:
                    el = seg_join_all(w.data) | seg_join_all(segs)
                    w.data = ((el, '*'),) if el else ()
                elif weak or len(lst) > 1:
                    w.data = join_lists(w.data, w.data + tuple(segs))
                else:
                    w.data = _compact(list(w.data) + list(segs))

    def isinstance_(self, v, t, st):
        types = []
        for a in t:
            if a[0] == 'tup':
                for e in a[1]:
                    types.extend(e)
            elif a[0] == 'o' and st.heap[a[1]].kind == 'list':
                for e, _ in st.heap[a[1]].data:
                    types.extend(e)
            else:
                types.append(a)
        out = set()
        for a in v:
            r = False
            for ty in types:
                x = self.inst_atom(a, ty, st)
                if x is True:
                    r = True
                    break
                if x is None:
                    r = None
            if r is None:
                out |= {True, False}
            else:
                out.add(r)
        return out or {True, False}

    def inst_atom(self, a, ty, st):
        k = a[0]
        if k == 'u':
            return None
        if ty[0] == 'u':
            return None
        tname = None
        if ty[0] == 'x':
            tname = {'types.NoneType': 'NoneType'}.get(ty[1], ty[1][9:] if ty[1].startswith('builtins.') else ty[1])
            if tname == 'object':
                return True
        if ty[0] == 'c' and ty[2] is None:
            return None
        if k == 'c':
            pt = a[1]
            if tname is None:
                return False
            if pt == 'bool':
                return tname in ('bool', 'int')
            return tname == pt
        if k == 'i':
            return tname == 'int'
        if k == 'f':
            return tname == 'float'
        if k == 's':
            return tname == 'str'
        if k == 'tup':
            return tname == 'tuple'
        if k == 'file':
            return False if ty[0] == 'k' or tname in BUILTIN_TYPES else None
        if k == 'tok':
            return a[2] == tname if a[2] else None
        if k == 'o':
            o = st.heap[a[1]]
            if o.kind == 'inst':
                if ty[0] == 'k':
                    return ty[1] in o.cls.get_mro()
                if tname == 'tuple' and o.cls.fields is not None:
                    return True
                if '$base' in o.data:
                    return self.inst_atom(next(iter(o.data['$base'])), ty, st)
                return ty[1] in o.cls.ext_bases() if ty[0] == 'x' else False
            if tname in ('collections.OrderedDict', 'collections.defaultdict'):
                return o.cls == tname.split('.')[1]
            if o.kind == 'list':
                return tname == (o.cls if o.cls in ('list', 'tuple') else 'list')
            if o.kind == 'dict':
                return tname == 'dict'
            if o.kind == 'set':
                return tname == o.cls
        if k in ('fn', 'bm', 'k', 'mod'):
            return False if tname in BUILTIN_TYPES or ty[0] == 'k' else None
        if k == 'xi':
            if ty[0] == 'x':
                return exc_is_sub(a[1], ty[1])
            return False
        return None


CONTAINERS = {'builtins.list': ('list', 'list'), 'builtins.dict': ('dict', 'dict'), 'builtins.set': ('set', 'set'),
              'collections.OrderedDict': ('dict', 'OrderedDict'), 'collections.deque': ('list', 'deque'),
              'collections.UserList': ('list', 'list'), 'collections.UserDict': ('dict', 'dict')}


def container_base(c):
    for b in c.ext_bases():
        if b in CONTAINERS:
            return CONTAINERS[b]
    return None


def char_of(h, i=None):
    """A character of a named string."""
    if h.a[3] == 1:
        return h
    if h.a[1] != 'w':
        return S.any_(h.taints)
    return S.hole(h.a[0] + ('[%s]' % ('*' if i is None else i)), 'w', 1, 1)


def word_index(n, k):
    """The character at index k when the index stays within literals up to a word."""
    ps = list(S.parts(n))
    if k >= 0:
        for p in ps:
            if p.kind == 'lit':
                if k < len(p.a):
                    return lit(p.a[k])
                k -= len(p.a)
            elif S.is_word(p):
                if k == 0 or p.a[3] == 1:
                    if p.a[3] == 1 and k:
                        k -= 1
                        continue
                    return char_of(p, 0)
                return None
            else:
                return None
        return None
    for p in reversed(ps):
        if p.kind == 'lit':
            if -k <= len(p.a):
                return lit(p.a[k])
            k += len(p.a)
        elif S.is_word(p) and k == -1:
            return char_of(p, -1)
        else:
            return None
    return None


def word_slice(n, l, h, step):
    """Slice whose bounds stay within the leading / trailing literals."""
    if n.kind == 'lit':
        return None
    if S.exact_len(n) is not None and all(p.kind == 'lit' or (S.is_word(p) and p.a[3] == 1) for p in S.parts(n)):
        return S.decode(S.encode(n)[slice(l, h, step)])
    if step is not None:
        return None
    l = 0 if l is None else l
    if not isinstance(l, int) or not isinstance(h, (int, type(None))):
        return None
    pre, suf = S.prefix(n), S.suffix(n)
    if h is not None and 0 <= l and 0 <= h <= len(pre):
        return lit(pre[l:h])
    if h is None and l < 0 and -l <= len(suf):
        return lit(suf[l:])
    if not 0 <= l <= len(pre):
        return None
    if h is not None and (h >= 0 or -h > len(suf)):
        return None
    ps = list(S.parts(n))
    if l:
        ps[0] = lit(ps[0].a[l:])
    if h is not None:
        ps[-1] = lit(ps[-1].a[:h])
    return S.cat(ps)


def _atom_order(a):
    return repr(a[:2]) if a[0] != 's' else 's%d' % a[1].uid


def _compact(segs, cap=6000):
    if len(segs) <= cap:
        return tuple(segs)
    return ((seg_join_all(segs), '*'),)


_OPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b if abs(b) < 64 else None, ast.BitOr: lambda a, b: a | b,
    ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b,
    ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
}

_cache_nl = {}


def _nonlocals(node):
    r = _cache_nl.get(id(node))
    if r is None:
        r = set()
        if not isinstance(node, ast.Lambda):
            for n in ast.walk(node):
                if isinstance(n, ast.Nonlocal):
                    r |= set(n.names)
        _cache_nl[id(node)] = r
    return r


_cache_cl = {}


def _has_closure(node):
    r = _cache_cl.get(id(node))
    if r is None:
        r = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not node
                for n in ast.walk(node))
        _cache_cl[id(node)] = r
    return r


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _pure(e):
    return isinstance(e, (ast.Constant, ast.Name)) or \
        (isinstance(e, ast.Attribute) and _pure(e.value)) or \
        (isinstance(e, (ast.Tuple, ast.List)) and all(_pure(x) for x in e.elts))


def _may_write(exprs):
    return any(isinstance(n, (ast.Call, ast.NamedExpr)) for e in exprs for n in ast.walk(e))


_cache_hf = {}


def _hash_field(node):
    """Field f when __hash__ is `return hash(self.f)`."""
    r = _cache_hf.get(id(node))
    if r is None:
        r = ''
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'hash' and n.args:
                a = n.args[0]
                if isinstance(a, ast.Attribute):
                    r = a.attr
        _cache_hf[id(node)] = r
    return r
