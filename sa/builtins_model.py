"""Models of Python builtins, str/list/dict/set methods and the few stdlib
functions the repository uses."""

import json
import os.path
import re

from . import strings as S
from .strings import lit
from .engine import *
from .engine import _jm


def exc(I, name, st, node, may=True):
    I.raise_exc(V(('xi', 'builtins.' + name)), st, node, may=may)
    if not may:
        raise Bottom()


def plain(args):
    return [a[1] if isinstance(a, tuple) else a for a in args]


def all_const(args):
    out = []
    for a in args:
        if isinstance(a, tuple):
            return None
        ok, c = const_of(a)
        if not ok:
            return None
        out.append(c)
    return out


def install(I):
    E = I.ext_models

    def b(name):
        def deco(f):
            E['builtins.' + name] = f
            return f
        return deco

    @b('len')
    def _len(I, args, kw, st, node):
        out = BOT
        bad = 0
        for a in args[0]:
            if a[0] == 's':
                n = S.exact_len(a[1])
                out |= const(n) if n is not None else INT
            elif a[0] == 'tup':
                out |= const(len(a[1]))
            elif a[0] == 'o':
                o = st.heap[a[1]]
                if o.kind == 'list' and all(m == 1 for _, m in o.data):
                    out |= const(len(o.data))
                elif o.kind == 'dict' and not o.extra and all(m for _, m in o.data.values()):
                    out |= const(len(o.data))
                elif o.kind == 'inst':
                    if '$base' in o.data and o.cls.lookup('__len__')[0] is None:
                        out |= _len(I, [o.data['$base']], kw, st, node)
                    elif o.cls.fields is not None:
                        out |= const(len(o.cls.fields))
                    elif o.cls.lookup('__len__')[0] is not None:
                        out |= I.call_method(V(a), '__len__', [], {}, st, node)
                    elif [x for x in o.cls.ext_bases() if x != 'builtins.object']:
                        out |= INT
                    else:
                        bad += 1
                else:
                    if o.kind in ('list', 'dict') and len(o.data) <= 6 and not (o.kind == 'dict' and o.extra):
                        ms = [m for _, m in (o.data if o.kind == 'list' else o.data.values())]
                        if '*' not in ms:
                            lo = sum(1 for m in ms if m is True or m == 1)
                            out |= frozenset().union(*[const(i) for i in range(lo, len(ms) + 1)])
                            continue
                    out |= INT
            elif a[0] in ('c', 'i', 'f'):
                bad += 1
            else:
                out |= INT
        if bad:
            exc(I, 'TypeError', st, node, may=bool(out))
        if not out:
            raise Bottom()
        return out

    @b('str')
    def _str(I, args, kw, st, node):
        if not args:
            return const('')
        return string(I.to_str(args[0], st, node))

    @b('repr')
    def _repr(I, args, kw, st, node):
        return string(I.to_str(args[0], st, node, rep=True))

    @b('ascii')
    def _ascii(I, args, kw, st, node):
        return string(I.to_str(args[0], st, node, rep=True))

    @b('format')
    def _format(I, args, kw, st, node):
        return string(I.to_str(args[0], st, node))

    @b('bool')
    def _bool(I, args, kw, st, node):
        if not args:
            return FALSE
        return frozenset().union(*[const(t) for t in I.truth(args[0], st)])

    @b('int')
    def _int(I, args, kw, st, node):
        if not args:
            return const(0)
        out = BOT
        for a in args[0]:
            ok, c = const_of(V(a))
            if ok:
                try:
                    out |= const(int(c))
                except ValueError:
                    exc(I, 'ValueError', st, node)
                except TypeError:
                    exc(I, 'TypeError', st, node)
            elif a[0] == 's':
                out |= V(('i', a[1].taints))
                exc(I, 'ValueError', st, node)
            elif a[0] in ('i', 'f'):
                out |= V(('i', a[1]))
            elif a[0] in ('u',):
                out |= V(('i', I.taints(V(a), st)))
                exc(I, 'ValueError', st, node)
            else:
                exc(I, 'TypeError', st, node)
        if not out:
            raise Bottom()
        return out

    @b('float')
    def _float(I, args, kw, st, node):
        out = BOT
        for a in args[0]:
            ok, c = const_of(V(a))
            if ok:
                try:
                    out |= const(float(c))
                except (ValueError, TypeError) as e:
                    exc(I, type(e).__name__, st, node)
            elif a[0] == 's':
                out |= V(('f', a[1].taints))
                exc(I, 'ValueError', st, node)
            else:
                out |= V(('f', I.taints(V(a), st)))
        if not out:
            raise Bottom()
        return out

    def seqlike(cls):
        def f(I, args, kw, st, node):
            if not args:
                return I.new_list(st, node, (), cls=cls) if cls != 'tuple' else V(('tup', ()))
            segs = I.iterate(args[0], st, node)
            if cls == 'tuple' and all(m == 1 for _, m in segs):
                return V(('tup', tuple(v for v, _ in segs)))
            return I.new_list(st, node, segs, cls=cls, tag=cls)
        return f
    b('list')(seqlike('list'))
    b('tuple')(seqlike('tuple'))
    E['collections.deque'] = seqlike('deque')

    def reversed_(I, args, kw, st, node):
        segs = I.iterate(args[0], st, node)
        return I.new_list(st, node, tuple(reversed(segs)), cls='iter')
    b('reversed')(reversed_)

    def iter_(I, args, kw, st, node):
        return I.new_list(st, node, I.iterate(args[0], st, node), cls='iter')
    b('iter')(iter_)

    @b('next')
    def _next(I, args, kw, st, node):
        out = BOT
        for a in args[0]:
            if a[0] == 'o' and st.heap[a[1]].kind == 'list':
                w = st.w(a[1])
                if w.data and w.data[0][1] == 1 and not w.summary and len(args[0]) == 1:
                    out |= w.data[0][0]
                    w.data = w.data[1:]
                else:
                    el = seg_join_all(w.data)
                    out |= el
                    if len(args) > 1:
                        out |= args[1]
                    else:
                        exc(I, 'StopIteration', st, node, may=bool(el))
            else:
                out |= unknown(I.taints(V(a), st))
        if not out and len(args) > 1:
            return args[1]
        if not out:
            raise Bottom()
        return out

    def setlike(cls):
        def f(I, args, kw, st, node):
            segs = I.iterate(args[0], st, node) if args else []
            return I.make_set(st, node, segs, cls=cls, tag=cls)
        return f
    b('set')(setlike('set'))
    b('frozenset')(setlike('frozenset'))

    def dictlike(cls):
        def f(I, args, kw, st, node):
            r = I.new_dict(st, node, cls=cls, tag=cls)
            a0 = list(args)
            if cls == 'defaultdict' and a0:
                if not hasattr(I, 'defaults'):
                    I.defaults = {}
                I.defaults[next(iter(r))[1]] = a0.pop(0)
            if a0:
                I.dict_update(r, a0[0], st, node)
            for k, v in kw.items():
                if k == '**':
                    I.set_item(r, string(S.any_()), v, st, node, quiet=True, may=True)
                elif isinstance(v, tuple):
                    I.set_item(r, const(k), v[1], st, node, quiet=True, may=True)
                else:
                    I.set_item(r, const(k), v, st, node, quiet=True)
            return r
        return f
    b('dict')(dictlike('dict'))
    E['collections.OrderedDict'] = dictlike('OrderedDict')
    E['collections.defaultdict'] = dictlike('defaultdict')

    @b('sorted')
    def _sorted(I, args, kw, st, node):
        v = args[0]
        for a in v:
            if a[0] == 'o' and st.heap[a[1]].kind == 'set':
                ob = st.heap[a[1]]
                segs = [(V(k), 1 if ob.data[k] else '?') for k in (I.set_keys(ob) if kw.get('key') else sorted(ob.data, key=repr))]
                if st.heap[a[1]].extra:
                    segs.append((st.heap[a[1]].extra, '*'))
                break
        else:
            segs = I.iterate(v, st, node)
        vals = [const_of(x) for x, m in segs]
        kf = kw.get('key')
        if kf is not None and kf == NONE:
            kf = None
        if kf is not None:
            ks = [I.call(kf, [x], {}, st, node) for x, _ in segs]
            cks = [const_of(k) for k in ks]
            okr, rv = const_of(kw.get('reverse', FALSE))
            if okr and all(ok for ok, _ in cks) and all(m == 1 for _, m in segs):
                try:
                    order = sorted(range(len(segs)), key=lambda i: cks[i][1], reverse=bool(rv))
                    return I.new_list(st, node, [segs[i] for i in order])
                except TypeError:
                    exc(I, 'TypeError', st, node)
        if kf is None and all(ok for ok, _ in vals) and all(m == 1 for _, m in segs):
            try:
                cs = sorted([c for _, c in vals])
                okr, rv = const_of(kw.get('reverse', FALSE))
                if okr and rv:
                    cs.reverse()
                return I.new_list(st, node, [(const(c) if not isinstance(c, tuple) else x, 1) for c, (x, _) in zip(cs, segs)])
            except TypeError:
                exc(I, 'TypeError', st, node)
        if len(segs) <= 1:
            return I.new_list(st, node, segs)
        # the order is a function of the multiset: keep the canonical input order
        el = seg_join_all(segs)
        srt = sorted(segs, key=lambda s: _key(s[0]))
        if len(set(srt)) == len(srt) and all(len(x) == 1 for x, _ in srt):
            return I.new_list(st, node, srt)
        return I.new_list(st, node, tuple((el, m) for _, m in segs))

    def _key(v):
        return sorted((a[1].uid if a[0] == 's' else 0, repr(a[:2]) if a[0] != 's' else '') for a in v)

    @b('enumerate')
    def _enumerate(I, args, kw, st, node):
        segs = I.iterate(args[0], st, node)
        start = 0
        ok = True
        if len(args) > 1 or 'start' in kw:
            ok, start = const_of(args[1] if len(args) > 1 else kw['start'])
        out = []
        exact = ok
        for i, (v, m) in enumerate(segs):
            if m != 1:
                iv = const(start + i) if exact and m == '?' else INT
                out.append((V(('tup', (iv, v))), m))
                exact = False
            else:
                out.append((V(('tup', (const(start + i) if exact else INT, v))), 1))
        return I.new_list(st, node, out, cls='iter')

    @b('zip')
    def _zip(I, args, kw, st, node):
        lists = [I.iterate(a, st, node) for a in plain(args)]
        if not lists:
            return I.new_list(st, node, (), cls='iter')
        if all(m == 1 for l in lists for _, m in l):
            n = min(len(l) for l in lists)
            return I.new_list(st, node, [(V(('tup', tuple(l[i][0] for l in lists))), 1) for i in range(n)], cls='iter')
        return I.new_list(st, node, ((V(('tup', tuple(seg_join_all(l) for l in lists))), '*'),), cls='iter')

    @b('map')
    def _map(I, args, kw, st, node):
        f = args[0]
        lists = [I.iterate(a, st, node) for a in plain(args[1:])]
        out = []
        if len(lists) == 1:
            for i, (v, m) in enumerate(lists[0]):
                old = I.push_ctx(('map', id(node), i))
                try:
                    out.append((I.call(f, [v], {}, st, node), m))
                finally:
                    I.ctx = old
        else:
            n = min(len(l) for l in lists)
            for i in range(n):
                out.append((I.call(f, [l[i][0] for l in lists], {}, st, node), '*' if any(l[i][1] != 1 for l in lists) else 1))
        return I.new_list(st, node, out, cls='iter')

    @b('filter')
    def _filter(I, args, kw, st, node):
        f = args[0]
        out = []
        for i, (v, m) in enumerate(I.iterate(args[1], st, node)):
            keep = BOT
            sure = True
            old = I.push_ctx(('flt', id(node), i))
            try:
                for a in v:
                    t = I.truth(V(a) if f == NONE else I.call(f, [V(a)], {}, st, node), st)
                    if True in t:
                        keep |= V(a)
                    if False in t:
                        sure = False
            finally:
                I.ctx = old
            if keep:
                out.append((keep, m if sure else ('?' if m == 1 else m)))
        return I.new_list(st, node, out, cls='iter')

    def quant(stop):
        def f(I, args, kw, st, node):
            segs = I.iterate(args[0], st, node)
            res = {not stop}
            for v, m in segs:
                t = I.truth(v, st)
                if t == {stop} and m == 1:
                    return const(stop)
                if stop in t:
                    res.add(stop)
            return frozenset().union(*[const(x) for x in res])
        return f
    b('any')(quant(True))
    b('all')(quant(False))

    def minmax(fn):
        def f(I, args, kw, st, node):
            vals = plain(args)
            if len(vals) == 1:
                segs = I.iterate(vals[0], st, node)
                vals = [v for v, m in segs]
                if not any(m == 1 for _, m in segs) and 'default' not in kw:
                    exc(I, 'ValueError', st, node, may=bool(vals))
                if any(m != 1 for _, m in segs):
                    el = seg_join_all(segs)
                    return (el | kw['default'] if 'default' in kw else el) or INT
            cs = all_const(vals)
            if cs and 'key' not in kw:
                try:
                    return const(fn(cs))
                except TypeError:
                    exc(I, 'TypeError', st, node, may=False)
            if len(vals) == 2 and all(const_of(V(a))[0] for v in vals for a in v):
                try:
                    return frozenset().union(*[const(fn([const_of(V(x))[1], const_of(V(y))[1]]))
                                               for x in vals[0] for y in vals[1]])
                except TypeError:
                    pass
            r = frozenset().union(*vals) if vals else INT
            return r
        return f
    b('min')(minmax(min))
    b('max')(minmax(max))

    @b('sum')
    def _sum(I, args, kw, st, node):
        segs = I.iterate(args[0], st, node)
        cs = all_const([v for v, _ in segs])
        if cs is not None and all(m == 1 for _, m in segs):
            try:
                return const(sum(cs))
            except TypeError:
                pass
        if any(a[0] == 'o' for v, _ in segs for a in v):
            out = []
            for v, m in segs:
                out.extend((e, mm if m == 1 else '*') for e, mm in I.iterate(v, st, node))
            return I.new_list(st, node, out)
        return V(('i', I.taints(seg_join_all(segs), st)))

    @b('range')
    def _range(I, args, kw, st, node):
        cs = all_const(args)
        if cs is not None and all(isinstance(c, int) for c in cs):
            r = range(*cs)
            if len(r) <= 64:
                return I.new_list(st, node, [(const(i), 1) for i in r], cls='iter')
        return I.new_list(st, node, ((INT, '*'),), cls='iter')

    @b('isinstance')
    def _isinstance(I, args, kw, st, node):
        return frozenset().union(*[const(t) for t in I.isinstance_(args[0], args[1], st)])

    @b('issubclass')
    def _issubclass(I, args, kw, st, node):
        out = BOT
        for a in args[0]:
            for c in args[1]:
                if a[0] == 'k' and c[0] == 'k':
                    out |= const(c[1] in a[1].get_mro())
                else:
                    out |= BOOL
        return out or BOOL

    @b('hasattr')
    def _hasattr(I, args, kw, st, node):
        ok, name = const_of(args[1])
        out = BOT
        if not ok:
            return BOOL
        for a in args[0]:
            r = quiet_attr(I, a, name, st, node)
            if r == 'unknown':
                out |= BOOL
            else:
                out |= const(r)
        return out or BOOL

    def quiet_attr(I, a, name, st, node):
        """Does the attribute exist? True/False/'unknown' without events."""
        if a[0] in ('u', 'xi', 'tok'):
            return 'unknown'
        if a[0] == 'o' and st.heap[a[1]].kind == 'inst':
            o = st.heap[a[1]]
            if name in o.data:
                return 'unknown' if o.extra and name in o.extra else True
            if o.cls.lookup(name)[0] is not None:
                return True
            if [x for x in o.cls.ext_bases() if x != 'builtins.object']:
                return 'unknown'
            return hasattr(object, name)
        if a[0] == 'x' and not a[1].startswith('builtins.'):
            return 'unknown'
        cols, I.collectors = I.collectors, [{}]
        try:
            r = I.attr_atom(a, name, st.fork(), node)
        except Bottom:
            r = None
        finally:
            I.collectors = cols
        return r is not None

    @b('getattr')
    def _getattr(I, args, kw, st, node):
        out = BOT
        names = args[1]
        for n in names:
            if n[0] == 's' and n[1].kind == 'lit':
                for a in args[0]:
                    if len(args) > 2:
                        q = quiet_attr(I, a, n[1].a, st, node)
                        if q is not True:
                            out |= args[2]
                        if q is False:
                            continue
                    out |= I.get_attr(V(a), n[1].a, st, node)
            else:
                # unknown name: any attribute of the object
                for a in args[0]:
                    if a[0] == 'o' and st.heap[a[1]].kind == 'inst':
                        o = st.heap[a[1]]
                        for v in o.data.values():
                            out |= v
                        I.event('dynattr', st, node, oid=a[1])
                    out |= unknown(I.taints(names, st))
        return out

    @b('setattr')
    def _setattr(I, args, kw, st, node):
        for n in args[1]:
            if n[0] == 's' and n[1].kind == 'lit':
                I.write_attr(args[0], n[1].a, args[2], st, node)
            else:
                for a in args[0]:
                    if a[0] == 'o':
                        I.event('write', st, node, oid=a[1], what='attr:?', value=args[2])
                        w = st.w(a[1])
                        if w.kind == 'inst':
                            for f in w.data:
                                w.data[f] = w.data[f] | args[2]
        return NONE

    @b('delattr')
    def _delattr(I, args, kw, st, node):
        return NONE

    @b('type')
    def _type(I, args, kw, st, node):
        out = BOT
        for a in args[0]:
            if a[0] == 'o':
                o = st.heap[a[1]]
                out |= V(('k', o.cls)) if o.kind == 'inst' else V(('x', 'builtins.' + (
                    o.cls if o.cls in ('list', 'tuple', 'dict', 'set', 'frozenset') else {'OrderedDict': 'dict'}.get(o.cls, 'list'))))
            elif a[0] == 's':
                out |= V(('x', 'builtins.str'))
            elif a[0] == 'c':
                out |= V(('x', 'types.NoneType' if a[2] is None else 'builtins.' + a[1]))
            elif a[0] == 'i':
                out |= V(('x', 'builtins.int'))
            elif a[0] == 'f':
                out |= V(('x', 'builtins.float'))
            elif a[0] == 'tup':
                out |= V(('x', 'builtins.tuple'))
            else:
                out |= UNKNOWN
        return out

    @b('callable')
    def _callable(I, args, kw, st, node):
        out = BOT
        for a in args[0]:
            out |= TRUE if a[0] in ('fn', 'bm', 'k', 'xm', 'pf') else FALSE if a[0] in ('s', 'c', 'i', 'tup') else BOOL
        return out

    b('id')(lambda I, args, kw, st, node: V(('i', frozenset([('id()', 'nondet')]))))

    @b('hash')
    def _hash(I, args, kw, st, node):
        return V(('i', frozenset([('hash()', 'nondet')])))

    b('print')(lambda I, args, kw, st, node: NONE)
    b('input')(lambda I, args, kw, st, node: string(S.any_()))
    b('open')(lambda I, args, kw, st, node: open_model(I, args, kw, st, node))

    def open_model(I, args, kw, st, node):
        I.raise_exc(V(('xi', 'builtins.FileNotFoundError')), st, node, may=True)
        return V(('file', id(node)))

    @b('abs')
    def _abs(I, args, kw, st, node):
        ok, c = const_of(args[0])
        return const(abs(c)) if ok and isinstance(c, (int, float)) else V(('i', I.taints(args[0], st)))

    @b('ord')
    def _ord(I, args, kw, st, node):
        ok, c = const_of(args[0])
        return const(ord(c)) if ok and isinstance(c, str) and len(c) == 1 else V(('i', I.taints(args[0], st)))

    @b('chr')
    def _chr(I, args, kw, st, node):
        ok, c = const_of(args[0])
        return const(chr(c)) if ok and isinstance(c, int) else string(S.any_(I.taints(args[0], st)))

    @b('round')
    def _round(I, args, kw, st, node):
        return INT

    @b('vars')
    def _vars(I, args, kw, st, node):
        return I.get_attr(args[0], '__dict__', st, node)

    @b('object')
    def _object(I, args, kw, st, node):
        return UNKNOWN

    # ------------------------------------------------------------- stdlib

    def namedtuple(I, args, kw, st, node):
        okn, name = const_of(args[0])
        c = ClassVal(name if okn else 'nt', I.frames[-1].module, ['builtins.tuple'],
                     I.frames[-1].module + '.' + str(name))
        c.node = node
        fs = []
        ok, f = const_of(args[1])
        if ok and isinstance(f, str):
            fs = f.replace(',', ' ').split()
        else:
            for v, m in I.iterate(args[1], st, node):
                ok, x = const_of(v)
                fs.append(x)
        c.fields = fs
        return V(('k', c))
    E['collections.namedtuple'] = namedtuple

    def passthrough_u(I, args, kw, st, node):
        return unknown(I.args_taints(args, kw, st))

    def partial(I, args, kw, st, node):
        return V(('pf', args[0], tuple(args[1:]), tuple(kw.items())))
    E['functools.partial'] = partial

    def reduce_(I, args, kw, st, node):
        segs = I.iterate(args[1], st, node)
        acc = args[2] if len(args) > 2 else None
        for v, m in segs:
            if acc is None:
                acc = v
                continue
            if m == 1:
                acc = I.call(args[0], [acc, v], {}, st, node)
            else:
                acc = acc | I.call(args[0], [acc, v], {}, st, node)
        return acc if acc is not None else UNKNOWN
    E['functools.reduce'] = reduce_

    def chain(I, args, kw, st, node):
        segs = []
        for a in args:
            if isinstance(a, tuple):
                for v, m in I.iterate(a[1], st, node):
                    segs.append((v, '*'))
            else:
                segs.extend(I.iterate(a, st, node))
        return I.new_list(st, node, segs, cls='iter')
    E['itertools.chain'] = chain

    def chain_from(I, args, kw, st, node):
        segs = []
        for v, m in I.iterate(args[0], st, node):
            segs.extend((e, mm if m == 1 else '*') for e, mm in I.iterate(v, st, node))
        return I.new_list(st, node, segs, cls='iter')
    E['itertools.chain.from_iterable'] = chain_from

    def re_compile(I, args, kw, st, node):
        ok, p = const_of(args[0])
        if ok:
            fl = all_const(args[1:]) or []
            return V(('rx', p, S.NOT))
        return V(('rx', None, I.taints(args[0], st)))
    E['re.compile'] = re_compile

    def re_escape(I, args, kw, st, node):
        ok, p = const_of(args[0])
        return const(re.escape(p)) if ok else string(S.any_(I.taints(args[0], st)))
    E['re.escape'] = re_escape

    def shlex_split(I, args, kw, st, node):
        exc(I, 'ValueError', st, node)
        return I.new_list(st, node, ((string(S.any_(I.taints(args[0], st))), '*'),))
    E['shlex.split'] = shlex_split

    for fn in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'finditer'):
        def f(I, args, kw, st, node, fn=fn):
            ok, p = const_of(args[0])
            if not ok and args[0] and next(iter(args[0]))[0] == 'rx':
                p = next(iter(args[0]))[1]
            return re_op(I, fn, p if isinstance(p, str) else None, plain(args[1:]), kw, st, node,
                         I.taints(args[0], st))
        E['re.' + fn] = f

    def dumps(I, args, kw, st, node):
        kws = {}
        for k, v in kw.items():
            ok, c = const_of(v)
            if not ok or k not in ('indent', 'ensure_ascii', 'sort_keys', 'separators', 'default'):
                kws = None
                break
            kws[k] = c
        if kws is not None:
            try:
                py = to_python(args[0], st)
                ascii_ = kws.pop('ensure_ascii', True)
                r = json.dumps(py, ensure_ascii=False, **kws)
                if ascii_:
                    r = ''.join(c if ord(c) < 128 or S.has_letter(c) else json.dumps(c)[1:-1] for c in r)
                return string(S.decode(r))
            except (TypeError, ValueError):
                pass
        return string(S.cat([lit(''), S.any_(frozenset((l, 'json') for l, _ in I.taints(args[0], st)))]))
    E['json.dumps'] = dumps

    def join_path(I, args, kw, st, node):
        cs = all_const(args)
        if cs is not None:
            try:
                return const(os.path.join(*cs))
            except TypeError:
                pass
        return string(S.any_(I.args_taints(args, kw, st)))
    E['os.path.join'] = join_path
    for n in ('basename', 'dirname', 'abspath', 'realpath', 'normpath', 'expanduser'):
        E['os.path.' + n] = lambda I, args, kw, st, node: string(S.any_(I.args_taints(args, kw, st)))
    E['os.path.splitext'] = lambda I, args, kw, st, node: V(('tup', (
        string(S.any_(I.args_taints(args, kw, st))), string(S.any_(I.args_taints(args, kw, st))))))
    E['os.path.exists'] = E['os.path.isfile'] = lambda I, args, kw, st, node: BOOL
    E['subprocess.run'] = lambda I, args, kw, st, node: sub_run(I, args, kw, st, node)

    def sub_run(I, args, kw, st, node):
        I.raise_exc(V(('xi', 'builtins.FileNotFoundError')), st, node, may=True)
        I.raise_exc(V(('xi', 'builtins.PermissionError')), st, node, may=True)
        I.raise_exc(V(('xi', 'subprocess.TimeoutExpired')), st, node, may=True)
        return UNKNOWN

    def sys_exit(I, args, kw, st, node):
        I.event('exit', st, node, args=args)
        I.raise_exc(V(('xi', 'builtins.SystemExit')), st, node)
        raise Bottom()
    E['sys.exit'] = sys_exit
    E['os._exit'] = sys_exit
    E['copy.copy'] = lambda I, args, kw, st, node: copy_model(I, args[0], st, node, deep=False)
    E['copy.deepcopy'] = lambda I, args, kw, st, node: copy_model(I, args[0], st, node, deep=True)
    E['typing.cast'] = lambda I, args, kw, st, node: args[1]


def to_python(v, st):
    """Python value (holes encoded as letters) of an abstract value that is
    fully determined; ValueError otherwise."""
    if len(v) != 1:
        raise ValueError
    (a,) = v
    if a[0] == 'c':
        return a[2]
    if a[0] == 's':
        e = S.encode(a[1])
        if e is None:
            raise ValueError
        return e
    if a[0] == 'tup':
        return tuple(to_python(x, st) for x in a[1])
    if a[0] == 'o':
        o = st.heap[a[1]]
        if o.summary:
            raise ValueError
        if o.kind == 'list' and all(m == 1 for _, m in o.data):
            return [to_python(x, st) for x, _ in o.data]
        if o.kind == 'dict' and not o.extra and all(m for _, m in o.data.values()):
            return {to_python(frozenset([k]), st): to_python(x, st) for k, (x, _) in o.data.items()}
    raise ValueError


def from_python(L, v):
    """Inverse of to_python: nested Python structure with decoded strings."""
    if isinstance(v, str):
        return S.decode(v)
    if isinstance(v, list):
        return [from_python(L, x) for x in v]
    if isinstance(v, dict):
        return {from_python(L, k) if isinstance(k, str) else k: from_python(L, x) for k, x in v.items()}
    return v


def copy_model(I, v, st, node, deep, memo=None, depth=0):
    memo = {} if memo is None else memo
    out = BOT
    for a in v:
        if a[0] != 'o' or depth > 12:
            out |= V(('tup', tuple(copy_model(I, e, st, node, deep, memo, depth + 1) for e in a[1]))) \
                if a[0] == 'tup' and deep else V(a)
            continue
        if a[1] in memo:
            out |= V(memo[a[1]])
            continue
        o = st.heap[a[1]]
        n = I.alloc(st, o.kind, node, o.cls, dict(o.data) if isinstance(o.data, dict) else o.data, o.extra,
                    tag=('copy', a[1]))
        memo[a[1]] = n
        if deep:
            w = st.w(n[1])
            if o.kind == 'list':
                w.data = tuple((copy_model(I, e, st, node, deep, memo, depth + 1), m) for e, m in o.data)
            elif o.kind == 'dict':
                w.data = {k: (copy_model(I, e, st, node, deep, memo, depth + 1), m) for k, (e, m) in o.data.items()}
            elif o.kind == 'inst':
                m, _ = o.cls.lookup('__deepcopy__')
                nd = {k: copy_model(I, e, st, node, deep, memo, depth + 1) for k, e in o.data.items()}
                st.w(n[1]).data = nd
        out |= V(n)
    return out


def _rx(pat, flags=0):
    try:
        return re.compile(S.word_regex(pat), flags)
    except re.error:
        return None


def re_op(I, fn, pat, args, kw, st, node, ptaints=S.NOT):
    rx = _rx(pat) if pat is not None else None
    if kw and set(kw) - {'string', 'repl'}:
        rx = None
    if fn == 'sub':
        repl, sv = args[0], args[1] if len(args) > 1 else kw.get('string', UNKNOWN)
        if len(args) > 2:
            rx = None
        out = BOT
        rt = I.taints(repl, st)
        rnode = None
        isfn = any(x[0] in ('fn', 'bm', 'pf', 'k', 'x', 'xm') for x in repl)
        okr, rc = const_of(repl)
        for a in sv:
            if a[0] != 's' or rx is None:
                if a[0] in ('c', 'i', 'tup', 'o'):
                    I.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=True)
                    continue
                out |= string(S.any_(I.taints(V(a), st) | rt | ptaints))
                continue

            def on_piece(x, enc_ok):
                """x: literal text or encoded text"""
                if not isfn and okr and isinstance(rc, str):
                    try:
                        return S.decode(rx.sub(rc, x))
                    except (re.error, IndexError):
                        return S.any_(rt)
                o = []
                pos = 0
                for m in rx.finditer(x):
                    o.append(S.decode(x[pos:m.start()]))
                    pos = m.end()
                    if isfn:
                        r = I.call(repl, [V(('match', S.NOT, m))], {}, st, node)
                    else:
                        r = repl
                    o.append(I.to_str(r, st, node))
                o.append(S.decode(x[pos:]))
                return S.cat(o)
            e = S.encode(a[1])
            if e is not None:
                out |= string(on_piece(e, True))
            else:
                if isfn:
                    # characters of the opaque parts may be replaced as well
                    I.call(repl, [V(('match', a[1].taints, None))], {}, st, node)
                out |= string(S.map_lit(a[1], lambda x: on_piece(x, False)))
        return out or string(S.any_())
    sv = args[0] if args else kw.get('string', UNKNOWN)
    t = I.taints(sv, st)
    if fn in ('match', 'fullmatch', 'search'):
        out = BOT
        bad = 0
        for a in sv:
            if a[0] in ('c', 'i', 'tup', 'o'):
                bad += 1
                continue
            if a[0] == 's' and rx is not None:
                done = True
                for x in S.alts(a[1]):
                    e = S.encode(x)
                    if e is None:
                        done = False
                        continue
                    m = getattr(rx, fn)(e)
                    out |= NONE if m is None else V(('match', x.taints, m))
                if not done:
                    out |= NONE | V(('match', t, None))
            else:
                out |= NONE | V(('match', t, None))
        if bad:
            I.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=bad < len(sv))
            if not out:
                raise Bottom()
        return out
    e = None
    if len(sv) == 1 and rx is not None:
        (a,) = sv
        if a[0] == 's':
            e = S.encode(a[1])
    if e is not None and len(args) == 1:
        if fn == 'split':
            return dec_result(I, rx.split(e), st, node)
        if fn == 'findall':
            return dec_result(I, rx.findall(e), st, node)
        if fn == 'finditer':
            return I.new_list(st, node, [(V(('match', S.NOT, m)), 1) for m in rx.finditer(e)], cls='iter')
    if fn == 'split':
        return I.new_list(st, node, ((string(S.any_(t)), '*'),))
    if fn == 'finditer':
        return I.new_list(st, node, ((V(('match', t, None)), '*'),))
    return I.new_list(st, node, ((string(S.any_(t)), '*'),))


def _split_nogroups(pat, x):
    out = []
    pos = 0
    for m in re.finditer(pat, x):
        out.append(x[pos:m.start()])
        pos = m.end()
    out.append(x[pos:])
    return out


def blur(n, memo=None):
    """Named holes become anonymous: the string was transformed."""
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    if n.kind == 'hole':
        r = S.any_(n.taints) if False else n
    elif n.kind == 'cat':
        r = S.cat([blur(p, memo) for p in n.a])
    elif n.kind == 'alt':
        r = S.alt([blur(p, memo) for p in n.a])
    elif n.kind == 'star':
        r = S.star(blur(n.a, memo))
    else:
        r = n
    memo[n] = r
    return r


FOLD = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'zfill', 'ljust', 'rjust',
        'center', 'expandtabs', 'casefold', 'swapcase', 'removeprefix', 'removesuffix', 'translate'}
PRED = {'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isidentifier', 'isdecimal',
        'isnumeric', 'isprintable', 'istitle', 'isascii'}


def method(I, recv, name, args, kw, st, node):
    k = recv[0]
    if name.startswith('super.'):
        base = I.base_of(recv, st) if recv[0] == 'o' else None
        if base is None:
            return NONE
        name = name[6:]
        if name == '__init__':
            I.base_init(base, args, kw, st, node)
            return NONE
        recv, k = base, 'o'
    if k == 's':
        return str_method(I, recv[1], name, args, kw, st, node)
    if k == 'tup':
        return tup_method(I, recv, name, args, kw, st, node)
    if k == 'o':
        o = st.heap[recv[1]]
        if o.kind == 'list':
            return list_method(I, recv, o, name, args, kw, st, node)
        if o.kind == 'dict':
            return dict_method(I, recv, o, name, args, kw, st, node)
        if o.kind == 'set':
            return set_method(I, recv, o, name, args, kw, st, node)
        if o.kind == 'inst' and o.cls.fields is not None:
            if name == '_replace':
                n = I.alloc(st, 'inst', node, o.cls, dict(o.data), tag='repl')
                w = st.w(n[1])
                for q, v in kw.items():
                    if isinstance(v, tuple):
                        v = v[1]
                    w.data[q] = v
                return V(n)
            if name == '_asdict':
                return I.new_dict(st, node, {('s', lit(f)): (v, True) for f, v in o.data.items()})
        if name == '__init__':
            return NONE
        if name in ('__eq__', '__ne__'):
            return BOOL
        return unknown(I.args_taints(args, kw, st))
    if k == 'rx':
        if name in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'finditer'):
            return re_op(I, name, recv[1], plain(args), kw, st, node, recv[2])
        return UNKNOWN
    if k == 'match':
        m = recv[2] if len(recv) > 2 else None
        if m is not None:
            cs = all_const(args)
            if cs is not None and name in ('group', 'groups', 'start', 'end'):
                try:
                    return dec_result(I, getattr(m, name)(*cs), st, node)
                except (IndexError, TypeError):
                    I.raise_exc(V(('xi', 'builtins.IndexError')), st, node)
                    raise Bottom()
        if name in ('start', 'end'):
            return INT
        if name == 'groups':
            return I.new_list(st, node, ((string(S.any_(recv[1])) | NONE, '*'),), cls='tuple')
        return string(S.any_(recv[1]))
    if k == 'file':
        if name == '__enter__':
            return V(recv)
        if name in ('read', 'readline'):
            return string(S.any_())
        if name == 'readlines':
            return I.new_list(st, node, ((string(S.any_()), '*'),))
        I.event('filemethod', st, node, name=name, args=args)
        return NONE
    return unknown(I.args_taints(args, kw, st) | I.taints(V(recv), st))


def enc_args(p):
    """Encoded constant / word-string arguments, or None."""
    out = []
    for a in p:
        if len(a) != 1:
            return None
        (x,) = a
        if x[0] == 's':
            e = S.encode(x[1])
            if e is None:
                return None
            out.append(e)
        elif x[0] == 'c':
            out.append(x[2])
        elif x[0] == 'tup':
            e = enc_args(x[1])
            if e is None:
                return None
            out.append(tuple(e))
        else:
            return None
    return out


def dec_result(I, r, st, node):
    if isinstance(r, str):
        return string(S.decode(r))
    if isinstance(r, tuple):
        return V(('tup', tuple(dec_result(I, x, st, node) for x in r)))
    if isinstance(r, list):
        if len(r) <= 6000:
            return I.new_list(st, node, [(dec_result(I, x, st, node), 1) for x in r])
        return I.new_list(st, node, ((string(S.any_()), '*'),))
    return const(r)


EXACT = {'startswith', 'endswith', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'strip',
         'lstrip', 'rstrip', 'replace', 'isspace', 'isalpha', 'isalnum', 'isdigit', 'isdecimal', 'isnumeric',
         'isidentifier', 'isprintable', 'removeprefix', 'removesuffix', 'count', '__contains__', 'isascii'}
CASE = ('lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase')


def str_method(I, n, name, args, kw, st, node):
    p = plain(args)
    starred = any(isinstance(a, tuple) for a in args)
    if n.kind == 'alt' and name in EXACT | set(CASE) | {'join', 'format'} and name not in ('split', 'rsplit', 'splitlines'):
        out = BOT
        for x in S.alts(n):
            out |= str_method(I, x, name, args, kw, st, node)
        if len(out) > 8 and all(a[0] == 's' for a in out):
            return string(S.alt([a[1] for a in out]))
        return out
    if name == 'join':
        return string(join_str(I, n, p[0], st, node))
    if name == 'format':
        return str_format(I, n, args, kw, st, node)
    e = S.encode(n)
    ca = None if starred else enc_args(p)
    kws = {}
    for q, v in kw.items():
        o2, c2 = const_of(v) if not isinstance(v, tuple) else (False, None)
        if not o2:
            ca = None
        kws[q] = c2
    if e is not None and ca is not None:
        letters = S.has_letter(e) or any(isinstance(x, str) and S.has_letter(x) for x in ca)
        if not letters or name in EXACT:
            if name == 'encode':
                return unknown()
            try:
                r = getattr(e, name)(*ca, **kws)
            except Exception as ex:
                I.raise_exc(V(('xi', 'builtins.' + type(ex).__name__)), st, node)
                raise Bottom()
            if name == 'isascii' and letters:
                return BOOL
            return dec_result(I, r, st, node)
        if name in ('find', 'rfind') and getattr(e, name)(*ca) == -1:
            return const(-1)
        if name in ('find', 'index') and isinstance(ca[0], str):
            k = e.find(ca[0])
            if k >= 0 and not S.has_letter(e[:k]):
                return const(k)
    t = n.taints
    at = I.args_taints(args, kw, st)
    if name == 'encode':
        return unknown(t)
    if name in ('split', 'rsplit', 'splitlines'):
        if name == 'splitlines':
            return I.new_list(st, node, [(string(x), 1) for x in S.lines(n, 'keep' if kws.get('keepends') else 'drop')])
        if name == 'split' and ca and ca[0] == '\n' and len(ca) == 1:
            return I.new_list(st, node, [(string(x), 1) for x in S.lines(n, 'split')])
        el = string(S.any_(t))
        if name == 'split' and not ca and not p:
            return I.new_list(st, node, ((el, 1 if n.minlen and n.kind == 'hole' and False else '*'),))
        return I.new_list(st, node, ((el, 1), (el, '*')))
    if name in ('partition', 'rpartition'):
        a = string(S.any_(t))
        return V(('tup', (a, const('') | (p[0] if p else BOT), a)))
    if name in ('startswith', 'endswith'):
        out = set()
        fn = S.starts_with if name == 'startswith' else S.ends_with
        for a in (p[0] if p else UNKNOWN):
            alts = []
            for x in ([y for el in a[1] for y in el] if a[0] == 'tup' else [a]):
                alts.append(x)
            rs = []
            for x in alts:
                if x[0] == 's' and x[1].kind == 'lit':
                    rs.append(fn(n, x[1].a))
                elif x[0] in ('c', 'i', 'o', 'tup'):
                    I.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=True)
                    rs.append({True, False})
                elif x[0] == 's' and name == 'startswith' and S.parts(n)[:len(S.parts(x[1]))] == S.parts(x[1]):
                    rs.append({True})
                else:
                    rs.append({True, False})
            if {True} in rs:
                out.add(True)
            elif any(True in r for r in rs):
                out |= {True, False}
            else:
                out.add(False)
        return frozenset().union(*[const(x) for x in out])
    if name == 'replace':
        ok, a = const_of(p[0])
        if ok and not isinstance(a, str):
            exc(I, 'TypeError', st, node, may=False)
        okb, bb = const_of(p[1]) if len(p) > 1 else (False, None)
        if okb and not isinstance(bb, str):
            exc(I, 'TypeError', st, node, may=False)
        if ok and a:
            rn = I.to_str(p[1], st, node)

            def f(x):
                o = []
                for i, q in enumerate(x.split(a)):
                    if i:
                        o.append(rn)
                    o.append(lit(q))
                return S.cat(o)
            return string(S.map_lit(n, f))
        return string(S.any_(t | at))
    if name in ('count', 'find', 'index', 'rfind', 'rindex'):
        if name in ('index', 'rindex'):
            exc(I, 'ValueError', st, node)
        return INT
    if name in PRED:
        return BOOL
    if name in ('strip', 'rstrip', 'lstrip'):
        chars = ca[0] if ca else None
        if ca is not None and not isinstance(chars, (str, type(None))):
            exc(I, 'TypeError', st, node, may=False)
        if n.kind == 'cat' and ca is not None:
            ps = list(n.a)
            if ps[0].kind == 'lit' and name != 'rstrip':
                ps[0] = lit(ps[0].a.lstrip(chars))
            if ps[-1].kind == 'lit' and name != 'lstrip':
                ps[-1] = lit(ps[-1].a.rstrip(chars))
            return string(S.cat(ps))
        return string(n if n.kind in ('hole', 'any') and not ca else S.any_(t))
    if name in CASE:
        return string(map_case(n, name))
    if name in FOLD:
        return string(S.any_(t | at))
    return unknown(t | at)


def map_case(n, name):
    """Case mapping keeps the grammar; holes get a derived name."""
    def go(x):
        if x.kind == 'lit':
            return lit(getattr(x.a, name)())
        if x.kind == 'hole':
            return S.hole(x.a[0] + '.' + name, x.a[1], x.a[2], x.a[3])
        if x.kind == 'any':
            return S.any_(frozenset((l + '.' + name if not l.endswith('.' + name) else l, k) for l, k in x.a))
        if x.kind == 'cat':
            return S.cat([go(p) for p in x.a])
        if x.kind == 'alt':
            return S.alt([go(p) for p in x.a])
        return S.star(go(x.a))
    return go(n)


def join_str(I, sep, v, st, node):
    segs = I.iterate(v, st, node)
    nodes = []
    for e, m in segs:
        bad = frozenset(a for a in e if a[0] in ('c', 'i', 'tup', 'o'))
        if bad:
            I.raise_exc(V(('xi', 'builtins.TypeError')), st, node, may=True)
            e = e - bad
            if not e:
                if m == 1:
                    raise Bottom()
                continue
        nodes.append((I.to_str(e, st, node), m))
    if not nodes:
        return S.EMPTY
    out = []
    first = True
    definite = False      # some element has certainly been emitted
    for e, m in nodes:
        if m == 1:
            if definite:
                out.append(sep)
            elif not first:
                out.append(S.alt([S.EMPTY, sep]))
            out.append(e)
            definite = True
        elif m == '?':
            if definite:
                out.append(S.alt([S.EMPTY, S.cat([sep, e])]))
            elif first:
                out.append(S.alt([S.EMPTY, e]))
            else:
                out.append(S.alt([S.EMPTY, e, S.cat([sep, e])]))
        else:
            if definite:
                out.append(S.star(S.cat([sep, e])))
            else:
                out.append(S.alt([S.EMPTY, S.cat([e, S.star(S.cat([sep, e]))])]))
        first = False
    return S.cat(out)


def str_format(I, n, args, kw, st, node):
    t = n.taints | I.args_taints(args, kw, st)
    if n.kind != 'lit' or any(isinstance(a, tuple) for a in args):
        return string(S.any_(t))
    pieces = []
    pos = 0
    auto = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}!:]*)(![rsa])?(:[^{}]*)?\}', n.a):
        pieces.append(lit(n.a[pos:m.start()]))
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            pieces.append(lit(m.group(0)[0]))
            continue
        f = m.group(1)
        if f == '':
            v = args[auto] if auto < len(args) else UNKNOWN
            auto += 1
        elif f.isdigit():
            v = args[int(f)] if int(f) < len(args) else UNKNOWN
        else:
            base = re.match(r'\w+', f)
            v = kw.get(base.group(0) if base else f, UNKNOWN)
            if isinstance(v, tuple):
                v = v[1]
            if base and base.group(0) != f:
                v = unknown(I.taints(v, st))
        pieces.append(I.to_str(v, st, node, rep=m.group(2) in ('!r', '!a')))
    pieces.append(lit(n.a[pos:]))
    return string(S.cat(pieces))


def tup_method(I, a, name, args, kw, st, node):
    if name == 'index':
        for i, e in enumerate(a[1]):
            if I.eq_values(e, args[0], st) == {True}:
                return const(i)
        exc(I, 'ValueError', st, node)
        return INT
    if name == 'count':
        return INT
    return unknown(I.taints(V(a), st))


def dunder(I, a, name, p, st, node):
    if name == '__setitem__':
        I.set_item(V(a), p[0], p[1], st, node)
        return NONE
    if name == '__getitem__':
        return I.subscript(V(a), p[0], st, node)
    if name == '__delitem__':
        I.del_item(V(a), p[0], st, node)
        return NONE
    if name == '__contains__':
        return frozenset().union(*[const(t) for t in I.contains(V(a), p[0], st, node)])
    if name == '__len__':
        return I.ext_models['builtins.len'](I, [V(a)], {}, st, node)
    return None


def list_method(I, a, o, name, args, kw, st, node):
    oid = a[1]
    p = plain(args)
    r = dunder(I, a, name, p, st, node)
    if r is not None:
        return r
    weak = o.summary
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'appendleft', 'popleft',
                '__setitem__', '__delitem__', '__iadd__'):
        if name == 'extend':
            I.list_extend(V(a), p[0], st, node)
            return NONE
        I.event('write', st, node, oid=oid, what=name)
        w = st.w(oid)
    if name == 'append':
        if weak:
            w.data = ((seg_join_all(w.data) | p[0], '*'),)
        else:
            from .interp import _compact
            w.data = _compact(list(w.data) + [(p[0], 1)])
        return NONE
    if name == 'appendleft':
        w.data = ((p[0], 1),) + w.data if not weak else ((seg_join_all(w.data) | p[0], '*'),)
        return NONE
    if name == 'insert':
        ok, i = const_of(p[0])
        d = list(w.data)
        if ok and not weak and isinstance(i, int) and (all(m == 1 for _, m in d) or i == 0):
            d.insert(i, (p[1], 1))
            w.data = tuple(d)
        else:
            w.data = ((seg_join_all(d) | p[1], '*'),)
        return NONE
    if name in ('pop', 'popleft'):
        d = list(w.data)
        ok, i = const_of(p[0]) if p else (True, 0 if name == 'popleft' else -1)
        if ok and not isinstance(i, int):
            exc(I, 'TypeError', st, node, may=False)
        if not d:
            exc(I, 'IndexError', st, node, may=False)
        if ok and not weak:
            if all(m == 1 for _, m in d):
                if -len(d) <= i < len(d):
                    v = d.pop(i)[0]
                    w.data = tuple(d)
                    return v
                exc(I, 'IndexError', st, node, may=False)
            if i == 0 and d[0][1] == 1:
                v = d.pop(0)[0]
                w.data = tuple(d)
                return v
            if i == -1 and d[-1][1] == 1:
                v = d.pop()[0]
                w.data = tuple(d)
                return v
        el = seg_join_all(d)
        exc(I, 'IndexError', st, node)
        w.data = ((el, '*'),)
        return el
    if name == 'remove':
        d = list(w.data)
        hit = False
        out = []
        for e, m in d:
            if hit:
                out.append((e, m))
                continue
            r = I.eq_values(e, p[0], st, node=node)
            if r == {True} and m == 1 and not weak:
                hit = True
                continue
            if True in r:
                out.append((e, '?' if m == 1 else m))
                hit = None if hit is False else hit
            else:
                out.append((e, m))
        if hit is not True:
            exc(I, 'ValueError', st, node, may=hit is None)
        st.w(oid).data = tuple(out)
        return NONE
    if name == 'clear':
        w.data = () if not weak else w.data
        return NONE
    if name == 'reverse':
        w.data = tuple(reversed(w.data))
        return NONE
    if name == 'sort':
        r = I.ext_models['builtins.sorted'](I, [V(a)], kw, st, node)
        (x,) = r
        st.w(oid).data = st.heap[x[1]].data
        return NONE
    if name == 'index':
        d = o.data
        for i, (e, m) in enumerate(d):
            r = I.eq_values(e, p[0], st)
            if m == 1 and r == {True}:
                return const(i)
            if m != 1 or True in r:
                break
        exc(I, 'ValueError', st, node)
        return INT
    if name == 'count':
        return INT
    if name == 'copy':
        return I.new_list(st, node, o.data, tag='copy', cls=o.cls)
    if name == '__iter__':
        return V(a)
    if name == '__len__':
        return I.ext_models['builtins.len'](I, [V(a)], {}, st, node)
    return unknown(I.taints(V(a), st) | I.args_taints(args, kw, st))


def dict_method(I, a, o, name, args, kw, st, node):
    oid = a[1]
    p = plain(args)
    r = dunder(I, a, name, p, st, node)
    if r is not None:
        return r
    if name in ('get',):
        v, miss = I.dict_get(a, p[0], st)
        if miss:
            v = v | (p[1] if len(p) > 1 else NONE)
        return v
    if name == 'items':
        out = [(V(('tup', (V(k), v))), 1 if m else '?') for k, (v, m) in o.data.items()]
        if o.extra:
            out.append((V(('tup', (o.extra[0], o.extra[1]))), '*'))
        return I.new_list(st, node, out, tag=('items', a), cls='iter')
    if name == 'keys':
        out = [(V(k), 1 if m else '?') for k, (v, m) in o.data.items()]
        if o.extra:
            out.append((o.extra[0], '*'))
        return I.new_list(st, node, out, tag=('keys', a), cls='iter')
    if name == 'values':
        out = [(v, 1 if m else '?') for k, (v, m) in o.data.items()]
        if o.extra:
            out.append((o.extra[1], '*'))
        return I.new_list(st, node, out, tag=('values', a), cls='iter')
    if name == 'copy':
        return I.new_dict(st, node, dict(o.data), o.extra, tag='copy', cls=o.cls)
    if name in ('pop', 'setdefault', 'update', 'clear', 'popitem', '__setitem__', 'move_to_end'):
        I.event('write', st, node, oid=oid, what=name)
    if name == 'pop':
        v, miss = I.dict_get(a, p[0], st)
        w = st.w(oid)
        for k in p[0]:
            if k[0] == 'o':
                k = I.hash_key(k, st) or k
            for q in list(w.data):
                q2 = I.hash_key(q, st) or q if q[0] == 'o' else q
                if q2 == k or q == k:
                    if len(p[0]) == 1 and not w.summary:
                        del w.data[q]
                    else:
                        w.data[q] = (w.data[q][0], False)
        if miss:
            if len(p) > 1:
                v = v | p[1]
            else:
                exc(I, 'KeyError', st, node, may=bool(v))
        if not v:
            raise Bottom()
        return v
    if name == 'setdefault':
        v, miss = I.dict_get(a, p[0], st)
        if miss:
            d = p[1] if len(p) > 1 else NONE
            I.set_item(V(a), p[0], v | d if v else d, st, node, quiet=True)
            v = v | d
        return v
    if name == 'update':
        for x in p:
            I.dict_update(V(a), x, st, node)
        for q, v in kw.items():
            I.set_item(V(a), const(q), v[1] if isinstance(v, tuple) else v, st, node, quiet=True)
        return NONE
    if name == 'clear':
        w = st.w(oid)
        if not w.summary:
            w.data = {}
            w.extra = None
        return NONE
    if name == 'popitem':
        vs = frozenset().union(*[v for v, _ in o.data.values()]) if o.data else BOT
        return V(('tup', (frozenset(o.data), vs)))
    if name == 'move_to_end':
        return NONE
    if name == 'fromkeys':
        return UNKNOWN
    return unknown(I.taints(V(a), st) | I.args_taints(args, kw, st))


def set_method(I, a, o, name, args, kw, st, node):
    oid = a[1]
    p = plain(args)
    if name in ('add', 'update', 'remove', 'discard', 'clear', 'pop'):
        I.event('write', st, node, oid=oid, what=name)
    if name == 'add':
        w = st.w(oid)
        if len(p[0]) == 1 and I.hashable_const(next(iter(p[0]))):
            w.data[next(iter(p[0]))] = not w.summary or w.data.get(next(iter(p[0])), False)
        else:
            w.extra = w.extra | p[0]
        return NONE
    if name == 'update':
        for x in p:
            segs = None
            if len(x) == 1:
                (q,) = x
                if q[0] == 'o' and st.heap[q[1]].kind == 'set':
                    so = st.heap[q[1]]
                    segs = [(V(k), 1 if m else '?') for k, m in so.data.items()]
                    if so.extra:
                        segs.append((so.extra, '*'))
            if segs is None:
                segs = I.iterate(x, st, node)
            for v, m in segs:
                w = st.w(oid)
                if len(v) == 1 and I.hashable_const(next(iter(v))):
                    q = next(iter(v))
                    w.data[q] = w.data.get(q, False) or (m == 1 and not w.summary)
                else:
                    w.extra = w.extra | v
        return NONE
    if name in ('remove', 'discard'):
        w = st.w(oid)
        for q in p[0]:
            if q in w.data:
                if len(p[0]) == 1 and not w.summary:
                    del w.data[q]
                else:
                    w.data[q] = False
        return NONE
    if name == 'clear':
        w = st.w(oid)
        w.data, w.extra = {}, BOT
        return NONE
    if name == 'pop':
        I.event('setiter', st, node, oid=oid, n=len(o.data) + (2 if o.extra else 0))
        if not o.extra and o.data and all(o.data.values()) and not o.summary:
            k = I.set_keys(o)[0]
            del st.w(oid).data[k]
            return V(k)
        return frozenset(o.data) | o.extra or UNKNOWN
    if name == 'copy':
        return V(I.alloc(st, 'set', node, o.cls, dict(o.data), o.extra, tag='copy'))
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        d = dict(o.data)
        ex = o.extra
        for x in p:
            for v, m in I.iterate(x, st, node):
                if name == 'union':
                    for q in v:
                        if I.hashable_const(q):
                            d[q] = d.get(q, False) or (m == 1 and len(v) == 1)
                        else:
                            ex |= V(q)
                elif name == 'difference':
                    for q in v:
                        if q in d:
                            d[q] = False
        return V(I.alloc(st, 'set', node, 'set', d, ex, tag=name))
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return BOOL
    return unknown(I.taints(V(a), st))
