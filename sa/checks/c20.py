"""C20: input is executed as code only when Python input is requested."""

import ast
import json

from .. import scen
from ..check import Check, pmap, ROOT
from ..engine import *
from ..vlab import CATALOG, invocations, host
from ..world import World, Run, RUN, RUN_PREFIX
from .c19 import sites as file_sites

RULES = {
    'no-execution': 'a run without --input-type=python imports, evaluates, compiles or executes nothing',
    'safe-yaml': 'YAML is read with the safe loader only',
    'no-shell': 'processes are started without a shell',
    'fixed-command': 'the program that is started is fixed; no text of the input is given to an interpreter as code',
    'sites': 'every place of the program that can execute code or start a process belongs to the runs above',
}
INTERPRETERS = ('sh', 'bash', 'zsh', 'fish', 'dash', 'ksh', 'python', 'python3', 'perl', 'awk', 'gawk', 'sed', 'env', 'xargs',
                'eval', 'ruby', 'node', 'make', 'find', 'ssh', 'sudo', 'nohup', 'timeout', 'busybox')
L = None


def elements(v, st):
    """Values of the elements of a list or tuple, or None."""
    if len(v) != 1:
        return None
    (a,) = v
    if a[0] == 'tup':
        return list(a[1])
    if a[0] == 'o':
        o = st.heap.get(a[1])
        if o is not None and o.kind == 'list':
            return [s[0] for s in o.data if s[1] == 1] if all(s[1] == 1 for s in o.data) else None
    return None


def command_of(e, st):
    """('list', [text or None]) or ('text', text) of a started process."""
    args = e.args
    v = None
    if args:
        v = args[0] if not isinstance(args[0], tuple) else None
    v = e.kwargs.get('args', v)
    if v is None:
        return None
    t = L.text_of(v)
    if t is not None:
        return 'text', t
    el = elements(v, st)
    if el is None:
        return None
    return 'list', [L.text_of(x) for x in el]


def judge(argv, r, key):
    out = []
    py = any(a in ('--input-type=python',) for a in argv) or any(
        a == '--input-type' and b == 'python' for a, b in zip(argv, argv[1:]))
    sure = [e for e in r.kinds('run') if not e.name.startswith('subprocess.')]
    bad = [] if py else sure
    if bad:
        out.append(('no-execution', key, 'violation' if not bad[0].may else 'undecided', '`%s` calls %s' % (' '.join(argv), bad[0].name), bad[0].where))
    else:
        out.append(('no-execution', key, 'ok', '', ''))
    bad = r.kinds('unsafe_yaml')
    if bad:
        out.append(('safe-yaml', key, 'violation', '`%s` reads YAML with a loader that constructs arbitrary objects' % ' '.join(argv), bad[0].where))
    else:
        out.append(('safe-yaml', key, 'ok', '', ''))
    for e in r.kinds('run'):
        out.append(('#site', e.where, 'ok', '', ''))
        if not e.name.startswith('subprocess.'):
            continue
        sh = e.kwargs.get('shell')
        k, sv = const_of(sh) if sh is not None else (True, False)
        if k and not sv and e.name not in ('subprocess.getoutput', 'subprocess.getstatusoutput'):
            out.append(('no-shell', 'process at ' + short(e), 'ok', '', ''))
        else:
            out.append(('no-shell', 'process at ' + short(e), 'violation', 'started through a shell', e.where))
            continue
        c = e.command
        if c is None:
            out.append(('fixed-command', 'process at ' + short(e), 'undecided', '', ''))
            continue
        kind, words = c
        words = words if kind == 'list' else [words]
        if not words or words[0] is None:
            out.append(('fixed-command', 'process at ' + short(e), 'undecided', '', ''))
            continue
        name = words[0].rsplit('/', 1)[-1]
        if e.tainted[0]:
            out.append(('fixed-command', 'process at ' + short(e), 'violation', 'the program %r comes from the input' % words[0], e.where))
        elif name in INTERPRETERS and any(e.tainted[1:]):
            out.append(('fixed-command', 'process at ' + short(e), 'violation', 'text of the input is given to %s as code' % name, e.where))
        elif 'executable' in e.kwargs:
            out.append(('fixed-command', 'process at ' + short(e), 'undecided', '', ''))
        else:
            out.append(('fixed-command', 'process at ' + short(e), 'ok', name, ''))
    return out


def short(e):
    return e.stack[-1].replace('crazy_complete.', '') if e.stack else e.where


# a word of the input that occurs nowhere else
MARK = 'qxjv'


def run(item):
    kind, argv, files, key = item
    if kind == 'defs':
        files = dict(scen.FILES, **files)
    r = Run(L, argv, files or scen.FILES)
    return judge(argv, r, key)


def marked(x):
    """The definitions with a mark in every text."""
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return [marked(e) for e in x]
    if isinstance(x, dict):
        return {k: marked(v) for k, v in x.items()}
    return x


def definitions():
    for name in CATALOG:
        for n, inv in enumerate(invocations(name)):
            for ctx in ('option', 'option/list', 'option/combine1'):
                if name == 'command_arg' and ctx != 'option':
                    continue
                if ctx != 'option' and n:
                    continue
                yield '%s #%d %s' % (name, n, ctx), host(inv, ctx)[0]
    for w in ('option_match --one -- qxjv.*', 'option_is --one -- qxjv', 'has_option --one', 'positional_contains 1 qxjv',
              'option_match nocase -i --one -- qxjv', '! option_match --one -- (qxjv|x)'):
        yield 'when ' + w, [dict(prog='qxjv', help='$(qxjv)', aliases=['qxjv2'], wraps='qxjv3', options=[
            dict(option_strings=['--one'], complete=['file']),
            dict(option_strings=['--two'], when=w, help='`qxjv`', metavar='qxjv', complete=['exec', 'qxjv; qxjv'], capture='qxjv')],
            positionals=[dict(number=1, when=w, complete=['exec_internal', 'qxjv'])])]
    yield 'yaml tags', None


def main():
    global L
    ck = Check('C20', RULES['no-execution'], RULES, floor=500, assumptions=[
        'the models of Python builtins in sa/ are faithful',
        'the argparse and PyYAML stand-ins in sa/stubs follow the real modules'])
    L = World(ROOT)
    L.script()

    def listener(kind, st, node, info):
        if kind == 'ext' and info['name'].startswith('subprocess.') and L.events and L.events[-1].kind == 'run':
            e = L.events[-1]
            e.command = command_of(e, st)
            words = ([] if e.command is None else e.command[1] if e.command[0] == 'list' else [e.command[1]])
            e.tainted = [w is None or MARK in w for w in words]
    L.I.listeners.append(listener)
    items = []
    for n, a in enumerate(scen.failing()):
        if '-u' not in a and 'new' not in a:
            items.append(('run', a, None, 'run ' + ' '.join(a)))
    for a in list(scen.working()) + list(scen.misuse()) + [a for a, s in scen.batches()] + list(scen.INFO):
        items.append(('run', a, None, 'run ' + ' '.join(a)))
    n = 0
    for k, d in definitions():
        if d is None:
            for t in ('!!python/object/apply:os.system [qxjv]', '!!python/name:os.system', '!!python/module:os',
                      '!!python/object/new:os.system [qxjv]'):
                for y in ('prog: %s\n' % t, '%s\n' % t, 'prog: p\n---\n%s\n' % t, 'prog: p\noptions:\n - help: %s\n' % t):
                    for sh in ('bash', 'json'):
                        items.append(('defs', [sh, 'm.yaml'], {'m.yaml': y}, 'YAML with %s' % t))
            continue
        for f in ('m.yaml', 'm.json'):
            for sh in scen.OUT if ck.tier == 'thorough' else (scen.OUT[n % 5], scen.OUT[(n + 2) % 5]):
                items.append(('defs', [sh, f], {'m.yaml': scen.as_yaml(d), 'm.json': json.dumps(d)}, 'definition %s' % k))
        n += 1
    reached = set()
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('no-execution', item[3], err)
            continue
        for r in res:
            if r[0] == '#site':
                reached.add(r[1])
            else:
                ck.merge([r])
    for where, text, always in sites():
        if where in reached or always:
            ck.ok('sites', text + ' at ' + where)
        else:
            ck.bad('sites', text, 'can execute code or start a process outside of the runs examined', where)
    ck.unit('runs', [i[3] for i in items])
    return ck.finish()


def sites():
    for mod, tree in L.p.modules.items():
        if mod in L.stubs and not mod.startswith('crazy_complete') and mod != '__main__':
            continue
        names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    names[a.asname or a.name] = n.module + '.' + a.name

        def dotted(f):
            if isinstance(f, ast.Name):
                return names.get(f.id, 'builtins.' + f.id)
            if isinstance(f, ast.Attribute):
                b = dotted(f.value)
                return b + '.' + f.attr if b and not b.startswith('builtins.') else None
            return None
        defined = {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d and (d in RUN or d.startswith(RUN_PREFIX)) and d.split('.')[-1] not in defined:
                    yield L.p.where(n), '%s: %s' % (mod, d), False
                elif d and d.startswith('yaml.') and d.split('.')[1] in ('load', 'load_all', 'full_load', 'full_load_all', 'unsafe_load', 'unsafe_load_all'):
                    a = list(n.args[1:]) + [k.value for k in n.keywords if k.arg == 'Loader']
                    if not any('Safe' in (dotted(x) or '') or 'BaseLoader' in (dotted(x) or '') for x in a):
                        yield L.p.where(n), '%s: %s' % (mod, d), False
