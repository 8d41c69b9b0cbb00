"""C17: generation is deterministic.

The text of every definition is derived twice by abstract interpretation: with
opposite iteration orders of sets, opposite orders of object identities and
hashes, and different answers of everything else that is no input (clock, random
numbers, environment, locale, platform), and, the second time, after another
definition has been processed.  The two texts must be the same.  Wherever they
differ the sources of nondeterminism met by the run, or the module level objects
it left changed, are the constructs reported."""

from ..check import Check, pmap, ROOT
from ..gen import *
from ..scripts import *
from ..catalog import CATALOG
from ..world import World, Run
from ..ambient import Ambient

RULES = {
    'same-script': 'the script does not depend on set order, identities, hashes, clock, random numbers, environment, locale or platform',
    'same-export': 'the same for the YAML and JSON text of a definition',
    'same-import': 'the same for a definition imported from an argparse program, YAML or JSON',
    'same-output': 'the same for the whole program: what it writes and where',
    'history-free': 'the text does not depend on what was generated before in the same process',
}

L = None
AMB = None
CORPUS = {}
KEYS = []
EXPORT = {'yaml': 'yaml_source.commandline_to_yaml', 'json': 'json_source.commandline_to_json'}


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    s = max(0, a.rfind('\n', 0, i) + 1)
    line = lambda t: t[s:t.find('\n', i) if '\n' in t[i:] else len(t)].strip()[:160]
    return '%r / %r' % (line(a), line(b))


class Text:
    def __init__(self, text, why, tainted=()):
        self.text, self.why, self.tainted = text, why, tainted


def make(st, target, tree, cfg):
    """Text of a definition."""
    with L.frame() as fr:
        try:
            root = build(L, st, tree)
            if target in EXPORT:
                v = L.call(st, EXPORT[target], root)
            else:
                v = L.generate(st, target, root, L.config(st, **{**cfg, 'set_function_prefix': PREFIX}))
        except Bottom:
            return Text(None, 'fails: ' + messages(L, fr))
    ss = [a[1] for a in v if a[0] == 's']
    nd = {l for a in v for l, k in L.I.taints(V(a), st) if k == 'nondet'}
    if len(ss) != 1 or len(v) != 1:
        return Text(None, 'not one text', nd)
    t = S.encode(ss[0])
    return Text(plain(t) if t is not None else None, 'not exact', nd)


def sources(events):
    out = {}
    for n, w in events:
        if w.startswith('crazy_complete') or w.startswith('/'):
            out.setdefault((n, w), None)
    return list(out)


def derive(key, target, world, before=None):
    L.I.steps = 0
    st = L.state()
    AMB.enter(world, st)
    try:
        if before is not None:
            f, cfg = CORPUS[before]
            make(st, target, f(), cfg)
            L.I.steps = 0
        AMB.events = []
        f, cfg = CORPUS[key]
        written = []

        def listen(k, s, node, info):
            if k == 'write' and info.get('oid') in L.base.heap and node is not None:
                written.append(L.p.where(node))
        L.I.listeners.append(listen)
        try:
            t = make(st, target, f(), cfg)
        finally:
            L.I.listeners.remove(listen)
        return t, list(AMB.events), written
    except (AnalysisBroken, RecursionError) as e:
        return Text(None, 'analysis: %s' % e), [], []
    finally:
        AMB.leave()


def blame(out, rule, what, a, b, events, detail):
    """One violation per source of nondeterminism met."""
    src = [e for e in events if e[0] not in ('iteration over a set',)] or events
    for n, w in sources(src) or [('', '')]:
        out.append((rule, '%s: %s' % (what, n or 'unknown source'), 'violation', detail, w))


def run(item):
    key, target = item
    rule = 'same-export' if target in EXPORT else 'same-script'
    what = '%s, %s' % (key, target)
    out = []
    a, ev, _ = derive(key, target, 0)
    if a.tainted:
        blame(out, rule, what, a, a, ev, 'the text contains the result of %s' % ', '.join(sorted(a.tainted)))
        return out
    before = KEYS[(KEYS.index(key) * 7 + 3) % len(KEYS)]
    b, ev2, written = derive(key, target, 1, before)
    if a.text is None or b.text is None:
        if (a.text is None) != (b.text is None) and (a.why[:5] == 'fails') != (b.why[:5] == 'fails') and 'analysis' not in a.why + b.why:
            blame(out, rule, what, a, b, ev2, 'one of the runs fails: %s / %s' % (a.why, b.why))
        else:
            out.append((rule, what, 'undecided', a.why + ' / ' + b.why, ''))
        return out
    if a.text == b.text:
        out.append((rule, what, 'ok', '%d characters' % len(a.text), ''))
        out.append(('history-free', what, 'ok', '', ''))
        return out
    c, ev3, _ = derive(key, target, 1)
    if c.text is not None and c.text != a.text:
        blame(out, rule, what, a, c, ev3, 'the text depends on it: ' + diff(a.text, c.text))
    else:
        out.append((rule, what, 'ok', '', ''))
    d, ev4, written = derive(key, target, 0, before)
    if d.text is not None and d.text != a.text:
        out.append(('history-free', what, 'violation', 'after %s the text differs: %s%s' % (
            before, diff(a.text, d.text), '; module level objects changed: ' + ', '.join(sorted(set(written))[:4]) if written else ''),
            (written or ['crazy_complete/generation.py'])[0]))
    return out


# ------------------------------------------------------------ whole runs

YAML = '''prog: "prog"
help: "program"
options:
  - option_strings: ["--one", "-1"]
    groups: ["g", "h"]
    help: "help of one"
  - option_strings: ["--two", "-2"]
    groups: ["h", "g"]
    complete: ["choices", {"b": "desc b", "a": "desc a", "c": "desc c"}]
    when: "has_option --one --three"
  - option_strings: ["--three", "-3"]
    repeatable: true
    capture: "THREE"
    complete: ["file", {"directory": "/d", "extensions": ["png", "jpg", "gif"]}]
positionals:
  - number: 1
    complete: ["list", ["choices", ["x", "y", "z"]], {"duplicates": true}]
---
prog: "prog sub"
aliases: ["s1", "s2"]
options:
  - option_strings: ["--four"]
    complete: ["key_value_list", ",", "=", {"k1": ["user"], "k2": null, "k3": ["file"]}]
---
prog: "prog other"
'''

ARGPARSE = '''import argparse
p = argparse.ArgumentParser(prog='prog', description='d')
p.add_argument('--one', choices={'one', 'two', 'three', 'four'})
p.add_argument('--two', choices=frozenset(['x', 'y', 'z']), nargs='?')
g = p.add_mutually_exclusive_group()
g.add_argument('--three', choices=['b', 'a'])
g.add_argument('--four', choices={'k': 'v', 'j': 'w'})
g.add_argument('pos', choices=('q', 'r'), nargs='?')
g2 = p.add_mutually_exclusive_group()
g2.add_argument('--five')
g2.add_argument('--six')
s = p.add_subparsers()
a = s.add_parser('sub', aliases=['x1', 'x2'], help='h')
a.add_argument('--seven', choices={'m', 'n'})
b = s.add_parser('tub')
h = b.add_mutually_exclusive_group()
h.add_argument('--a')
h.add_argument('--b')
'''

IMPORT = {'argparse': ('argparse_source.load_from_file', 'prog.py', ARGPARSE)}


def imported(kind, world, target):
    func, name, text = IMPORT[kind]
    L.reset({name: text})
    st = L.state()
    AMB.enter(world, st)
    L.I.ext_values['sys.path'] = L.val(st, ['/usr/lib/python'])
    try:
        with L.frame() as fr:
            try:
                root = L.call(st, func, L.val(st, name))
                AMB.events = [e for e in AMB.events]
                if target in EXPORT:
                    v = L.call(st, EXPORT[target], root)
                else:
                    v = L.generate(st, target, root, L.config(st))
            except Bottom:
                return Text(None, 'fails: ' + messages(L, fr)), AMB.events
        ss = [a[1] for a in v if a[0] == 's']
        nd = {l for a in v for l, k in L.I.taints(V(a), st) if k == 'nondet'}
        t = S.encode(ss[0]) if len(ss) == 1 == len(v) else None
        return Text(t, 'not exact', nd), AMB.events
    except (AnalysisBroken, RecursionError) as e:
        return Text(None, 'analysis: %s' % e), []
    finally:
        AMB.leave()


def program(argv, files, world):
    AMB.enter(world)
    try:
        # messages.LANG belongs to the module state
        base = L.base
        st = base.fork()
        AMB.enter(world, st)
        L.base = st
        try:
            r = Run(L, argv, files)
        finally:
            L.base = base
        outs = None
        if not r.broken:
            outs = L.outputs()
        return outs, list(AMB.events), r.broken
    except (AnalysisBroken, RecursionError) as e:
        return None, [], str(e)
    finally:
        AMB.leave()


def whole(item):
    kind, arg, target = item
    out = []
    if kind == 'import':
        what = '%s to %s' % (arg, target)
        a, ev = imported(arg, 0, target)
        b, ev2 = imported(arg, 1, target)
        if a.tainted:
            blame(out, 'same-import', what, a, a, ev, 'the text contains the result of %s' % ', '.join(sorted(a.tainted)))
        elif a.text is None or b.text is None:
            out.append(('same-import', what, 'undecided', a.why + ' / ' + b.why, ''))
        elif a.text == b.text:
            out.append(('same-import', what, 'ok', '%d characters' % len(a.text), ''))
        else:
            blame(out, 'same-import', what, a, b, ev2, 'the text depends on it: ' + diff(a.text, b.text))
        return out
    what = ' '.join(arg)
    argv, files = list(arg), dict(target)
    a, ev, broken = program(argv, files, 0)
    b, ev2, broken2 = program(argv, files, 1)
    if a is None or b is None or not all(t is not None for _, t in a + b):
        out.append(('same-output', what, 'undecided', str(broken or broken2 or 'a text is not exact'), ''))
    elif a == b:
        out.append(('same-output', what, 'ok', '%d texts' % len(a), ''))
    elif [p for p, _ in a] != [p for p, _ in b]:
        blame(out, 'same-output', what, a, b, ev2, 'written files differ: %s / %s' % ([p for p, _ in a], [p for p, _ in b]))
    else:
        (_, x), (_, y) = next((p, q) for p, q in zip(a, b) if p != q)
        blame(out, 'same-output', what, x, y, ev2, 'the text depends on it: ' + diff(x, y))
    return out


def work(item):
    return whole(item[1]) if item[0] == 'whole' else run(item[1])


def main():
    global L, AMB, CORPUS
    ck = Check('C17', 'Generation is deterministic', RULES, floor=150, assumptions=[
        'two opposite orders stand for all orders of a set; two values stand for all values of a clock, random or environment source',
        'dictionaries keep their insertion order (Python 3.7 and later)'])
    L = World(ROOT)
    L.I.max_steps = 20_000_000
    AMB = Ambient(L)
    AMB.quiet = lambda name, args: name.startswith(('os.path.', 'tempfile.', 'locale.setlocale')) and WHOLE[0]
    full = corpus(ck.tier)
    keep = {}
    s, c = shapes(), conditions()
    for k, v in full.items():
        if ck.tier == 'thorough' or k in s or ' with ' in k and not any(k.startswith(n + ' ') for n in CATALOG) and 'when' not in k:
            keep[k] = v
    for n, i in enumerate(c):
        if n % 3 == 0 or ck.tier == 'thorough':
            keep[i] = full[i]
    for n, cc in CATALOG.items():
        keep[n] = (lambda cc=cc: with_completer(cc, cc.full(), 'positional' if cc.positional else 'option'), {})
    keep['rich'] = (rich, {})
    CORPUS = keep
    KEYS[:] = list(keep)
    items = [('one', (k, t)) for k in keep for t in SHELLS]
    items += [('one', (k, t)) for k in keep if not keep[k][1] for t in EXPORT]
    for k in IMPORT:
        items += [('whole', ('import', k, t)) for t in list(SHELLS) + list(EXPORT)]
    for t in list(SHELLS) + list(EXPORT):
        items.append(('whole', ('run', (t, '--input-type=yaml', 'def.yaml', '-o', 'out'), (('def.yaml', YAML),))))
        items.append(('whole', ('run', (t, 'prog.py', '--input-type=python', '-o', 'out'), (('prog.py', ARGPARSE),))))
    items = [(k, tuple(x) if k == 'one' else x) for k, x in items]
    for it, res, err in pmap(guarded, items):
        if err:
            ck.unknown('same-script', str(it[1])[:80], err)
        else:
            ck.merge(res)
    ck.unit('definitions', KEYS)
    ck.unit('targets', list(SHELLS) + list(EXPORT))
    return ck.finish()


WHOLE = [False]


def guarded(item):
    WHOLE[0] = item[0] == 'whole'
    return work(item)
