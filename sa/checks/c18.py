"""C18: generating or exporting never modifies the caller's definition.

Every operation is interpreted abstractly on a definition; the heap objects
reachable from the definition are compared before and after, and the text
produced after another operation is compared with the text produced alone."""

from ..check import Check, pmap, ROOT
from ..gen import *
from ..catalog import CATALOG
from .. import defs

RULES = {
    'definition-unchanged': 'no attribute and no nested list or dictionary of the definition differs after the operation',
    'same-result-again': 'an operation gives the same text after another operation on the same definition object '
                         'and configuration as it gives alone',
}

OPS = {
    'bash.generate_completion': ('bash',), 'fish.generate_completion': ('fish',), 'zsh.generate_completion': ('zsh',),
    'yaml_source.commandline_to_yaml': None, 'json_source.commandline_to_json': None,
    'cli.CommandLine.copy': 'copy', 'generation.enhance_commandline': 'enhance',
    'completion_validator.validate_commandlines': None,
}


def run_op(st, op, root, cfg):
    k = OPS[op]
    if isinstance(k, tuple):
        return L.generate(st, k[0], root, cfg)
    if k == 'copy':
        return L.meth(st, root, 'copy')
    if k == 'enhance':
        return L.call(st, 'generation.enhance_commandline', root, cfg)
    return L.call(st, op, root)


def reachable(st, v, out):
    for a in v:
        if a[0] == 'tup':
            for x in a[1]:
                reachable(st, x, out)
        if a[0] != 'o' or a[1] in out or a[1] not in st.heap:
            continue
        o = st.heap[a[1]]
        if o.kind not in ('list', 'dict', 'inst', 'set'):
            continue
        out.add(a[1])
        if o.kind == 'list':
            for e, _ in o.data:
                reachable(st, e, out)
        elif o.kind == 'dict':
            for e, _ in o.data.values():
                reachable(st, e, out)
        elif o.kind == 'inst':
            for n, e in o.data.items():
                reachable(st, e, out)
    return out


L = None
COMPLETERS = []


def definition(item):
    kind, arg = item
    if kind == 'rich':
        return rich(2, **arg)
    if kind == 'skeleton':
        return rich(1, **arg)
    if kind == 'alt':
        c = CATALOG[arg[0]]
        return with_completer(c, alternatives(c)[arg[1]], 'positional' if c.positional else 'option')
    c = CATALOG[arg]
    if kind == 'nested':
        t = simple(options=[(['--opt', '-o'], dict(complete=['list', c.full()], optional_arg=True)),
                            (['--opt2'], dict(complete=['combine', [c.full(), ['choices', ['x']]]]))])
        return t
    t = with_completer(c, c.full(), 'sub' if kind == 'sub' else 'positional' if c.positional else 'option')
    return t


def alternatives(c):
    """Invocations with every list or dictionary argument in another order,
    with repeated elements, and in its other forms."""
    out = []

    def orders(a):
        for v in [a.base] + a.alternatives():
            if isinstance(v, list) and v and a.name != 'command':
                yield v[::-1]
                if not isinstance(v[0], list):
                    yield v[::-1] + v[:1]
            elif isinstance(v, dict):
                yield v
                yield dict(reversed(list(v.items())))
    full = {a.name: (a.first_alt() if a.optional and a.alts else a.base) for a in c.args}
    for a in c.args:
        for v in orders(a):
            out.append(c.invoke({**full, a.name: v}))
    for a in c.opts or ():
        for v in orders(a):
            d = {}
            for o in c.opts:
                if not any(x in d for x in o.excl):
                    d[o.name] = v if o is a else o.base
            out.append(c.invoke(full, d))
    return out


def last_write(events, oids):
    for (oid, node, what) in reversed(events):
        if oid in oids:
            return '%s at %s' % (what, L.p.where(node))
    return ''


def run(item):
    kind, arg, first, others = item
    out = []
    L.I.steps = 0
    st = L.state()
    t = definition((kind, arg))
    with L.frame() as fr:
        try:
            root = build(L, st, t)
            cfg = L.config(st)
        except Bottom:
            return [('definition-unchanged', '%s on %s' % (first, arg), 'undecided', 'cannot build ' + messages(L, fr), '')]
    before = st.fork()
    oids = reachable(before, root, set())
    events = []

    def listen(k, s, node, info):
        if k == 'write' and info.get('oid') in oids:
            events.append((info['oid'], node, info.get('what')))
    L.I.listeners.append(listen)
    try:
        with L.frame() as fr:
            try:
                run_op(st, first, root, cfg)
            except Bottom:
                return [('definition-unchanged', '%s on %s %s' % (first, kind, arg), 'undecided', messages(L, fr), '')]
    finally:
        L.I.listeners.remove(listen)
    d = Differ(before, st, skip=())
    d.value(root, root, kind)
    bad = [r for r in d.reports if r[1] == 'diff']
    # a write to a definition object that leaves several values behind
    writes = sorted({'%s: %s' % (L.p.where(n), w) for o, n, w in events if n is not None})
    if bad:
        where = L.p.where(events[-1][1]) if events else ''
        out.append(('definition-unchanged', first, 'violation', 'definition with %s: %s changed: %s (writes: %s)' % (
            kind if kind in ('rich', 'skeleton') else arg, bad[0][0], bad[0][2], '; '.join(writes)[:300]), where))
    elif d.reports and events:
        # values that were not determined beforehand stay undetermined: only changed objects matter
        changed = [o for o in oids if before.heap[o].data != st.heap[o].data]
        if changed:
            out.append(('definition-unchanged', '%s on %s' % (first, arg), 'undecided', str(d.reports[0]), ''))
        else:
            out.append(('definition-unchanged', first, 'ok', '', ''))
    else:
        out.append(('definition-unchanged', first, 'ok', '', ''))
    # the same result again
    for op in others:
        L.I.steps = 0
        base = L.state()
        with L.frame() as fr:
            try:
                r2 = build(L, base, definition((kind, arg)))
                alone = run_op(base, op, r2, L.config(base))
                s3 = st.fork()
                again = run_op(s3, op, root, cfg)
            except Bottom:
                out.append(('same-result-again', '%s after %s' % (op, first), 'undecided', messages(L, fr), ''))
                continue
        a, b = text(alone), text(again)
        if a is None or b is None:
            out.append(('same-result-again', '%s after %s' % (op, first), 'undecided', 'text not determined', ''))
        elif a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            out.append(('same-result-again', '%s after %s' % (op, first), 'violation',
                        'definition with %s: output differs: %r / %r' % (
                            arg, a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80]),
                        'crazy_complete/%s.py' % op.split('.')[0]))
        else:
            out.append(('same-result-again', '%s after %s' % (op, first), 'ok', '', ''))
    return out


def text(v):
    g = Gen(v, (), False, None)
    return g.text


def main():
    global L
    ck = Check('C18', 'Generating or exporting never modifies the caller\'s definition', RULES, floor=20, assumptions=[
        'user-visible attributes are those the constructors store; attributes added by an operation are not compared',
        'completers are exercised with every documented option set'])
    L = Lab(ROOT)
    L.I.max_steps = 40_000_000
    items = []
    gens = [o for o in OPS if isinstance(OPS[o], tuple)]
    texts = gens + ['yaml_source.commandline_to_yaml', 'json_source.commandline_to_json']
    ops = []
    for o in OPS:
        try:
            if o != 'cli.CommandLine.copy':
                L.sym(o)
            ops.append(o)
        except AnalysisBroken:
            ck.unknown('definition-unchanged', o, 'no such function')
    variants = [{}, dict(inherit_options=True, abbreviate_options=True, abbreviate_commands=True)]
    thorough = ck.tier == 'thorough'
    for v in variants:
        for o in ops:
            if thorough:
                items.append(('rich', v, o, [x for x in texts if x in ops]))
            else:
                # every ordered pair over the two variants, and each operation twice
                items.append(('rich', v, o, [o] if o in texts and v else []))
                items.append(('skeleton', v, o, [x for x in texts if x in ops]))
    for name in CATALOG:
        for o in ops:
            for kind in ('top', 'nested', 'sub'):
                if kind == 'nested' and name in ('command_arg', 'list', 'combine', 'prefix', 'none', 'command') \
                        or kind == 'sub' and not thorough:
                    continue
                items.append((kind, name, o, [o] if o in texts else []))
        for i, _ in enumerate(alternatives(CATALOG[name])):
            for o in ops:
                if o != 'cli.CommandLine.copy':
                    items.append(('alt', (name, i), o, []))
    items.sort(key=lambda i: 0 if i[0] == 'rich' else 1)
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('definition-unchanged', '%s on %s %s' % (item[2], item[0], item[1]), err)
        else:
            ck.merge(res)
    ck.unit('operations', ops)
    ck.unit('definitions', sorted({'%s %s' % (i[0], i[1]) for i in items}))
    return ck.finish()
