"""C23: usage and definition errors map to their documented exit status.

The start script is interpreted with virtual files and command lines; all ways
in which it can end are compared with the documented status."""

import json

from .. import scen
from ..check import Check, pmap, ROOT
from ..engine import *
from ..vlab import base, deep, put, get, TABLE, REPS
from ..world import World, Run

RULES = {
    'input-error': 'an error of the input ends the program with status 1',
    'misuse': 'a wrong command line ends the program with status 2',
    'message': 'the program prints an error message before it ends with status 1',
    'no-traceback': 'no traceback is printed for a predictable error (unless --debug is given)',
    'success': 'a run without an error ends with status 0',
}
L = None


def message(r):
    return [e for e in r.kinds('print') if e.to is not None]


def judge(rule, want, argv, key, files, lang=''):
    r = Run(L, argv, files)
    s = r.statuses()
    name = '`%s`' % ' '.join(argv)
    where = (r.exits[0].where if r.exits else r.excs[0][2] if r.excs else 'crazy-complete')
    if r.broken:
        return [(rule, key, 'undecided', r.broken, '')]
    out = []
    if s == {want}:
        out.append((rule, key, 'ok', '', ''))
    else:
        sure = r.exact and not any(t for n, t, w in r.excs) and '?' not in s and s
        if 'traceback' in s:
            sure = r.exact and any(not t for n, t, w in r.excs)
            where = next((w for n, t, w in r.excs if not t), where)
        out.append((rule, key, 'violation' if sure else 'undecided', '%s ends with %s instead of status %d %s' % (
            name, '/'.join('status %s' % x if x != 'traceback' else 'a traceback' for x in sorted(s, key=str)), want,
            ', '.join(n for n, t, w in r.excs)), where))
    if rule == 'success':
        return out
    tb = r.kinds('traceback')
    if tb and '--debug' not in argv:
        out.append(('no-traceback', key, 'violation' if r.exact else 'undecided', 'a traceback is printed for %s' % name, tb[0].where))
    else:
        out.append(('no-traceback', key, 'ok', '', ''))
    if want == 1 and s == {1}:
        if message(r):
            out.append(('message', key, 'ok', '', ''))
        else:
            out.append(('message', key, 'violation' if r.exact else 'undecided', '%s ends without a message' % name, where))
    return out


def run(item):
    kind = item[0]
    if kind == 'run':
        _, rule, want, argv = item
        key = '%s%s' % (argv[0] + ' ' if argv else '', ' '.join(a for a in argv[1:] if a not in ('-o', '-i', '-u', 'old', 'new')))
        return judge(rule, want, argv, key, scen.FILES)
    _, key, defs, early, n = item
    out = []
    try:
        files = {'m.yaml': scen.as_yaml(defs), 'm.json': json.dumps(defs)}
    except TypeError:
        return out
    sh = scen.OUT[n % 5]
    for f in ('m.yaml', 'm.json') if early else ('m.yaml',):
        if f == 'm.json' and sh not in scen.SH:
            sh = scen.SH[n % 3]
        r = Run(L, [sh, f], files)
        if r.statuses() == {0} and r.exact:
            continue                        # an accepted definition is the matter of C05
        out += judge('input-error', 1, [sh, f] + (['--debug'] if n % 7 == 0 else []), 'definition: ' + key, files)
    return out


def typed():
    """Definitions with a value of a wrong type."""
    for level in TABLE:
        for attr in TABLE[level]:
            for t in REPS:
                for v in REPS[t]:
                    d = base()
                    put(d, {'command': (1, attr), 'option': (1, 'options', 0, attr), 'positional': (0, 'positionals', 0, attr)}[level], deep(v))
                    try:
                        json.dumps(d)
                    except (TypeError, ValueError):
                        continue
                    yield '%s.%s: %s' % (level, attr, t), d


def main():
    global L
    ck = Check('C23', RULES['input-error'], RULES, floor=500, assumptions=[
        'the models of Python builtins in sa/ are faithful; external calls without a model do not fail',
        'the argparse and PyYAML stand-ins in sa/stubs follow the real modules'])
    L = World(ROOT, lang='de' if ck.tier == 'thorough' else 'en')
    L.script()
    deep_run = ck.tier == 'thorough'
    # the destination only matters after the input was accepted (C19 runs all)
    items = [('run', 'input-error', 1, a) for a in scen.failing() if '-u' not in a and (deep_run or '-o' not in a and '-i' not in a)]
    items += [('run', 'input-error', 1, a + ['--debug']) for a in scen.failing() if len(a) == 2 and a[0] == 'zsh']
    items += [('run', 'misuse', 2, a) for a in scen.misuse()]
    items += [('run', {0: 'success', 1: 'input-error', 2: 'misuse'}[s], s, a) for a, s in scen.batches()]
    items += [('run', 'success', 0, a) for i, a in enumerate(scen.working()) if deep_run or i % 2]
    items += [('run', 'success', 0, a) for a in scen.INFO]
    items += [('run', 'input-error', 1, ['zsh', 'd.json', '-u']),
              ('run', 'input-error', 1, ['bash', 'd.json', '-o', 'readonly']),
              ('run', 'input-error', 1, ['yaml', 'd.json', '-o', 'readonly']),
              ('run', 'input-error', 1, ['yaml', 'd.json', '-o', 'adirectory'])]
    scen.FILES.update(readonly=PermissionError(), adirectory=IsADirectoryError())
    n = 0
    for k, d, early in scen.malformed(L, ck.tier):
        n += 1
        if n % 4 == 0 or deep_run:
            items.append(('defs', k, d, early, n))
    for k, d in typed():
        n += 1
        if n % 10 == 0 or deep_run:
            items.append(('defs', k, d, True, n))
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('input-error', str(item)[:200], err)
        else:
            ck.merge(res)
    ck.unit('runs', [' '.join(i[3]) for i in items if i[0] == 'run'])
    return ck.finish()
