"""C04: a definition attribute of the wrong type is always rejected.

Validation is interpreted abstractly on definitions in which exactly one value
has a type the documentation does not allow; the end of the validation must be
unreachable."""

from ..check import Check, pmap, ROOT
from ..vlab import *

RULES = {
    'attribute-type': 'validation cannot end normally when the attribute (or element of the attribute) has the type',
    'argument-type': 'validation cannot end normally when the completer argument, option or element has the type',
    'document-type': 'validation cannot end normally when a document is no dictionary',
    'allowed-types-accepted': 'the same definition with a value of an allowed type is accepted',
}

L = None


def values(types):
    """Values of every wrong type: abstract ones where the engine has them."""
    for t in wrong(types):
        vs = ([ANY[t]] if t in ANY else []) + REPS[t][:3 if t in (LIST, DICT) else 1]
        yield t, vs


def judge(rule, key, t, defs, where, routes=(via_validator, via_json)):
    out = []
    for r in routes:
        o = r(L, defs)
        k = '%s = %s' % (key, t)
        name = 'yaml' if r is via_validator else 'json'
        if not o.normal:
            out.append((rule, k, 'ok', '', ''))
        elif certain(o):
            out.append((rule, k, 'violation', 'accepted by the %s route' % name, where))
        else:
            out.append((rule, k + ' (%s)' % name, 'undecided', o.text, ''))
    return out


def certain(o):
    return all(e[0].endswith('FileNotFoundError') for e in o.excs)


WHERE = 'crazy_complete/scheme_validator.py'


def run(item):
    kind = item[0]
    out = []
    if kind == 'attr':
        _, level, attr, depth, second = item
        d0 = base()
        path = {'command': (depth, attr), 'option': (depth, 'options', second, attr),
                'positional': (depth, 'positionals', 0, attr)}[level]
        for t, vs in values(TABLE[level][attr]):
            for v in vs:
                d = deep(d0)
                # keep unrelated rules satisfied
                put(d, path, v)
                out += judge('attribute-type', '%s.%s' % (level, attr), t, d, WHERE)
        if (level, attr) in ELEMENTS:
            for t, vs in values(ELEMENTS[level, attr]):
                for v in vs:
                    for place in (0, 1):
                        d = deep(d0)
                        x = get(d, path) if second == 0 or attr != 'groups' else ['g']
                        if attr in ('options', 'positionals'):
                            x = list(x)
                        x = (x[:1] if place else []) + [v] + ([] if place else x[:1])
                        put(d, path, x)
                        out += judge('attribute-type', '%s.%s element' % (level, attr), t, d, WHERE)
        if kind == 'attr' and depth == 0 and not second:
            ok = via_validator(L, d0)
            out.append(('allowed-types-accepted', 'definition', 'ok' if ok.normal and certain(ok) else 'undecided', ok.text, ''))
    elif kind == 'comp':
        _, name, ctx, depth = item
        c = CATALOG[name]
        done = set()
        for n, inv in enumerate(invocations(name)):
            if ctx != 'option' and n > 1:
                break
            d0, at = host(inv, ctx, depth, second=depth == 1)
            ok = via_validator(L, d0)
            if not ok.normal:
                if name != 'none':
                    out.append(('allowed-types-accepted', '%s as %s: %r' % (name, ctx, inv), 'undecided', ok.text, ''))
                continue
            out.append(('allowed-types-accepted', '%s as %s' % (name, ctx), 'ok', '', ''))
            for path, types in places(inv):
                pk = show_path(path)
                for t, vs in values(types):
                    for v in vs[:None if ctx in ('option', 'option/list') else 1]:
                        if isinstance(path[-1], tuple) and isinstance(v, (list, dict, Any)):
                            continue       # no such keys; keys are literal
                        if (pk, repr(v)) in done:
                            continue
                        done.add((pk, repr(v)))
                        d = deep(d0)
                        put(d, at + path, v)
                        out += judge('argument-type', '%s %s' % (name, pk), t, d, WHERE,
                                     (via_validator, via_json) if ctx == 'option' and depth == 0 else (via_validator,))
    elif kind == 'doc':
        for t, vs in values((DICT,)):
            for v in vs:
                for i in range(3):
                    d = base()
                    d.insert(i, v)
                    out += judge('document-type', 'document', t, d, WHERE)
    return out


def main():
    global L
    ck = Check('C04', 'A definition attribute of the wrong type is always rejected', RULES, floor=300, assumptions=[
        'the table of allowed types in sa/vlab.py and sa/catalog.py is frozen from the documentation',
        'a boolean counts as an integer (as in Python); tuples, sets and other types cannot come from YAML or JSON'])
    L = Lab2(ROOT)
    items = [('doc',)]
    for level in TABLE:
        for attr in TABLE[level]:
            for depth in (0, 1, 2):
                items.append(('attr', level, attr, depth, int(depth == 1) if level == 'option' else 0))
    for name in CATALOG:
        for ctx in CONTEXTS if ck.tier == 'thorough' else ('option', 'positional', 'option/list/combine1', 'option/kvl/prefix'):
            if name == 'command_arg' and ctx != 'option':
                continue
            items.append(('comp', name, ctx, 0))
        items.append(('comp', name, 'option', 1))
        items.append(('comp', name, 'positional', 2))
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('argument-type', str(item), err)
        else:
            ck.merge(res)
    ck.unit('completers', list(CATALOG))
    ck.unit('attributes', ['%s.%s' % (l, a) for l in TABLE for a in TABLE[l]])
    return ck.finish()
