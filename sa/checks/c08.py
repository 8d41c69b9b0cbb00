"""C08: every completer and completer option takes effect in every shell.

The generators are interpreted abstractly on pairs of definitions that differ
in exactly one completer argument or option; the generated texts must differ."""

from ..check import Check, pmap, ROOT
from ..gen import *
from .. import catalog
from ..catalog import CATALOG
from .. import defs

RULES = {
    'completer-implemented': 'a definition using the completer is generated for the shell and gives another script than '
                             'the same definition with the completer `none`',
    'argument-takes-effect': 'changing one argument or option of the completer (or leaving an optional one out) changes '
                             'the generated script',
    'completers-distinct': 'two different completers do not give the same script',
}

# documented as variants of the same completion
SAME = {'exec', 'exec_fast', 'exec_internal'}

CONTEXTS = ('option', 'companion', 'positional', 'repeatable', 'sub', 'list', 'combine', 'prefix', 'kv')


def place(inv, ctx, positional=False):
    if positional:
        return simple(positionals=[(1, dict(complete=['command'])), (2, dict(complete=inv, repeatable=True))])
    if ctx == 'option':
        return simple(options=[(['--opt', '-o'], dict(complete=inv))])
    if ctx == 'companion':
        # all helper features are switched on by another option
        return simple(options=[(['--opt', '-o'], dict(complete=inv)),
                               (['--other'], dict(complete=CATALOG[inv[0]].full()))])
    if ctx == 'positional':
        return simple(positionals=[(1, dict(complete=inv))])
    if ctx == 'repeatable':
        return simple(options=[(['--opt'], dict(complete=inv, optional_arg=True, repeatable=True))],
                      positionals=[(1, dict(complete=['none'])), (2, dict(complete=['none'], repeatable=True))])
    if ctx == 'sub':
        t = simple()
        t.subs = [simple(options=[(['--opt'], dict(complete=inv))], prog='sub')]
        return t
    if ctx == 'list':
        return simple(options=[(['--opt'], dict(complete=['list', inv]))])
    if ctx == 'combine':
        return simple(options=[(['--opt'], dict(complete=['combine', [inv, ['choices', ['x']]]]))])
    if ctx == 'prefix':
        return simple(options=[(['--opt'], dict(complete=['prefix', 'file:', inv]))])
    if ctx == 'kv':
        return simple(options=[(['--opt'], dict(complete=['key_value_list', ',', '=', [['key', None, inv]]]))])
    raise KeyError(ctx)


L = None
SHORT = True
cache = {}


def gen(shell, inv, ctx, positional=False):
    key = (shell, repr_inv(inv), ctx)
    if key not in cache:
        L.I.steps = 0
        try:
            g = generate(L, shell, place(inv, ctx, positional))
            cache[key] = (g.text, g.value is None, g.error)
        except (AnalysisBroken, RecursionError) as e:
            cache[key] = (None, False, str(e))
    return cache[key]


def repr_inv(v):
    if isinstance(v, S.S):
        return S.show(v)
    if isinstance(v, list):
        return '[%s]' % ', '.join(map(repr_inv, v))
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (repr_inv(k), repr_inv(x)) for k, x in v.items())
    return repr(v)


MODULES = {'bash': 'crazy_complete/bash_complete.py', 'fish': 'crazy_complete/fish_complete.py',
           'zsh': 'crazy_complete/zsh_complete.py'}


def where(shell, name):
    """The class method or class implementing the completer."""
    import ast
    from ..engine import Program
    for m, tree in L.p.modules.items():
        tree = getattr(tree, 'tree', tree)
        if not m.endswith(shell + '_complete'):
            continue
        for n in ast.walk(tree) if isinstance(tree, ast.AST) else ():
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return 'crazy_complete/%s_complete.py:%d' % (shell, n.lineno)
    return MODULES[shell]


def variants(c, shell, short=False, pairs=False):
    """(argument, base invocation, [alternative invocations])."""
    pos = list(c.args)
    for i, a in enumerate(pos):
        over = {p.name: p.base for p in pos[:i + 1]}
        yield a, c.invoke(over), [c.invoke({**over, a.name: x}) for x in a.alternatives(shell)] + (
            [c.invoke({p.name: p.base for p in pos[:i]})] if a.optional and a.base != 1 and a.name != 'type' else [])
    if c.opts is None:
        return
    args = {p.name: p.base for p in pos if not p.optional}
    full_args = {p.name: (p.first_alt() if p.optional and p.alts else p.base) for p in pos}
    for a in c.opts:
        others = {}
        for o in c.opts:
            if o is not a and o.name not in a.excl and not any(x in others for x in o.excl):
                others[o.name] = o.base
        # alone, with the other options, with the other options at other values, and with each of them
        rests = [(dict(a.needs), args), ({**others, **a.needs}, full_args)]
        other2 = {} if not pairs else {n: next(o for o in c.opts if o.name == n).first_alt() for n in others}
        if pairs and other2:
            rests = [({**other2, **a.needs}, full_args)]
        elif pairs:
            rests = rests[:1]
        for n in other2:
            rests.append(({n: other2[n], **a.needs}, args))
        for rest, ar in rests[:1 if short else None]:
            base = c.invoke(ar, {**rest, a.name: a.base})
            alts = [c.invoke(ar, {**rest, a.name: x}) for x in a.alternatives(shell)][:1 if short else None]
            if a.optional and not (c.opts_required and not rest):
                alts.append(c.invoke(ar, rest) if rest or not a.optional else c.invoke(ar))
            yield a, base, alts
        if a.name in ('min', 'max') and not short:
            # the falsy bound
            yield a, c.invoke(args, {a.name: 0}), [c.invoke(args)]


def run(item):
    name, shell, ctx = item
    c = CATALOG[name]
    out = []
    if c.positional and ctx != 'repeatable':
        return out
    claimed = c.only is None or shell in c.only
    base = c.invoke()
    t, failed, err = gen(shell, base, ctx, c.positional)
    w = where(shell, name)
    if failed:
        if 'CrazyError' in err or 'rror(' in err:
            return [('completer-implemented', '%s in %s' % (name, shell), 'ok' if ctx not in ('option', 'positional', 'sub')
                     else 'violation', 'generation fails for a documented completer: ' + err, w)]
        return [('completer-implemented', '%s in %s' % (name, shell), 'violation', 'generation fails: ' + err, w)]
    none = ['none']
    n, nf, nerr = gen(shell, none, ctx, False) if not c.positional and ctx != 'companion' else (None, True, '')
    if claimed and name != 'none' and not nf:
        if t is None or n is None:
            out.append(('completer-implemented', '%s in %s (%s)' % (name, shell, ctx), 'undecided', err or nerr, ''))
        elif t == n:
            out.append(('completer-implemented', '%s in %s' % (name, shell), 'violation',
                        'the script is the same as with `none` (as %s)' % ctx, w))
        else:
            out.append(('completer-implemented', '%s in %s' % (name, shell), 'ok', '', ''))
    if SHORT and ctx in ('sub', 'repeatable') and not c.positional:
        return out
    for a, b, alts in variants(c, shell, SHORT and ctx not in ('option', 'companion'), ctx == 'companion'):
        if not claimed or (a.only is not None and shell not in a.only):
            continue
        key = '%s.%s in %s' % (name, a.name, shell)
        texts = []
        for inv in [b] + alts:
            t, failed, err = gen(shell, inv, ctx, c.positional)
            if failed:
                texts.append((inv, None, 'rejected: ' + err))
            else:
                texts.append((inv, t, err))
        b0 = texts[0]
        if b0[1] is None:
            out.append(('argument-takes-effect', key + ' (%s)' % ctx, 'undecided', repr_inv(b) + ': ' + b0[2], ''))
            continue
        for inv, t, err in texts[1:]:
            if t is None:
                if not err.startswith('rejected'):
                    out.append(('argument-takes-effect', key + ' (%s)' % ctx, 'undecided', repr_inv(inv) + ': ' + err, ''))
                continue
            if t == b0[1]:
                out.append(('argument-takes-effect', key, 'violation', 'same script for %s and %s (as %s)' % (
                    repr_inv(b), repr_inv(inv), ctx), w))
            else:
                out.append(('argument-takes-effect', key, 'ok', '', ''))
    return out


def run_distinct(item):
    shell, ctx = item
    texts = {}
    out = []
    for name, c in CATALOG.items():
        if c.positional or not (c.only is None or shell in c.only) or name in (
                'combine', 'prefix', 'list', 'integer', 'float'):
            continue
        t, failed, err = gen(shell, c.invoke(), ctx)
        if t is None:
            continue
        if t in texts and {name, texts[t]} <= SAME:
            continue
        if t in texts:
            out.append(('completers-distinct', '%s and %s in %s' % (texts[t], name, shell), 'violation',
                        'same script (as %s)' % ctx, where(shell, name)))
        else:
            texts[t] = name
            out.append(('completers-distinct', '%s in %s' % (name, shell), 'ok', '', ''))
    return out


def validator_commands():
    """Names of the completers the validator accepts (abstractly evaluated table)."""
    try:
        st = L.base
        v = L.sym('scheme_validator._COMMANDS')
        (a,) = v
        o = st.heap[a[1]]
        return [k[2] if k[0] == 'c' else S.encode(k[1]) for k in o.data]
    except Exception:
        return None


def main():
    global L, SHORT
    ck = Check('C08', 'Every completer and completer option takes effect in every shell', RULES, floor=150, assumptions=[
        'arguments are varied over the frozen alternatives of sa/catalog.py; extensions and globs are literal examples',
        'date is documented for zsh only, date_format for fish and zsh'])
    L = Lab(ROOT)
    SHORT = ck.tier != 'thorough'
    L.I.max_steps = 20_000_000
    accepted = validator_commands()
    if accepted is None:
        ck.unknown('completer-implemented', 'validator table', 'cannot be read')
    for n in accepted or ():
        if n not in CATALOG:
            ck.unknown('completer-implemented', n, 'completer without a catalogue entry')
    ctxs = CONTEXTS if ck.tier == 'thorough' else ('option', 'companion', 'positional', 'sub', 'list', 'combine', 'repeatable')
    names = [n for n in CATALOG if accepted is None or n in accepted]
    items = [(n, s, c) for c in ctxs for s in SHELLS for n in names]
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('completer-implemented', '%s in %s (%s)' % item, err)
        else:
            ck.merge(res)
    for item, res, err in pmap(run_distinct, [(s, c) for s in SHELLS for c in ('option', 'positional')]):
        if err:
            ck.unknown('completers-distinct', '%s %s' % item, err)
        else:
            ck.merge(res)
    ck.unit('completers', names)
    ck.unit('generated definitions', ['%s %s %s' % i for i in items])
    return ck.finish()
