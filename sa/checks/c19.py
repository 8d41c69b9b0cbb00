"""C19: output files are touched only after generation succeeded.

The start script is interpreted on virtual files.  Every event that changes a
file is checked against the designated destination, against the text that the
run without a destination prints, and against the calls made after the file was
opened."""

import ast

from .. import scen
from ..check import Check, pmap, ROOT
from ..engine import *
from ..gen import SHELLS
from ..world import World, Run, TOUCH, TOUCH_PREFIX

RULES = {
    'failing-run': 'a run that fails on its input changes no file',
    'designated': 'only the file named by the output, install or uninstall option is changed',
    'exact-text': 'the file is opened once and receives exactly the text that is printed without the option',
    'text-complete': 'no function of the generators, loaders or validators is called after the file was opened',
    'encodable': 'the text was encoded as UTF-8 without error before the existing file is truncated',
    'stdout-only': 'without an output option no file is changed',
    'sites': 'every place of the program that can change files is covered by the runs above, or concerns a temporary '
             'file of its own',
}
L = None
HELPERS = ('application', 'utils', '__main__', 'paths')


def dest_of(argv, sh):
    for i, a in enumerate(argv):
        if a == '-o':
            return argv[i + 1]
        if a in ('-i', '-u'):
            st = L.state()
            try:
                v = L.call(st, 'paths.get_%s_completion_file' % sh, const('prog'))
            except (Bottom, AnalysisBroken):
                return None
            return L.text_of(v)
    return ''


def text_of_run(r):
    out = L.outputs()
    return out[0][1] if len(out) == 1 else None


def where_of(e):
    return e.where


def judge_fail(key, r):
    w = scen.writes(r)
    # what a run designates by -u may be removed only when it succeeded; the
    # attempt to remove a missing file comes after generation
    sure = [e for e in w if not e.may]
    if r.broken:
        return [('failing-run', key, 'undecided', r.broken, '')]
    if sure:
        e = sure[0]
        what = {'open': 'opens %r for writing' % getattr(e, 'path', None), 'write': 'writes',
                'touch': 'calls ' + getattr(e, 'name', '')}[e.kind]
        return [('failing-run', key, 'violation', '`%s` fails, but before that it %s' % (' '.join(r.argv), what), e.where)]
    if w:
        return [('failing-run', key, 'undecided', '', '')]
    return [('failing-run', key, 'ok', '', '')]


def sites_of(r):
    return [('#site', e.where, 'ok', '', '') for e in scen.writes(r) + r.kinds('open', 'touch')]


def run(item):
    kind = item[0]
    out = []
    if kind == 'fail':
        argv = item[1]
        L.process = item[2] if len(item) > 2 else (0, '/pkgdir\n', '')
        r = Run(L, argv, scen.FILES)
        key = ' '.join(argv[1:2] + [a for a in argv[2:] if a not in ('-o', '-i', '-u', 'old', 'new')])
        if 0 in r.statuses() and r.exact:
            return [('failing-run', key, 'undecided', 'does not fail', '')] + sites_of(r)
        out += judge_fail('%s %s' % (argv[0], key), r) + sites_of(r)
    elif kind == 'malformed':
        key, defs, early, sh, dest = item[1:]
        try:
            import json
            text = scen.as_yaml(defs)
        except TypeError:
            return []
        files = dict(scen.FILES, **{'m.yaml': text, 'm.json': json.dumps(defs)})
        for f in ('m.yaml', 'm.json') if early else ('m.yaml',):
            if f == 'm.json' and sh not in scen.SH:
                sh = 'bash'
            r = Run(L, [sh, f] + list(dest), files)
            if 0 in r.statuses():
                out.append(('failing-run', 'definition: ' + key, 'undecided', 'accepted', ''))
                continue
            out += judge_fail('definition: ' + key, r)
    elif kind == 'work':
        argv, process, old = item[1:]
        L.process = process
        sh = argv[0]
        dest = dest_of(argv, sh)
        files = dict(scen.FILES, **({dest: 'old\n'} if dest and old else {}))
        r = Run(L, argv, files)
        key = ' '.join(argv) + ('' if process and process[0] == 0 else ' (pkg-config fails)')
        w = scen.writes(r)
        out += sites_of(r)
        if r.statuses() != {0} or dest is None or r.broken or any(e.may for e in w):
            return out + [('designated', key, 'undecided', str(r.statuses()), '')]
        ops = [e for e in w if e.kind == 'open']
        if dest == '':
            if w:
                out.append(('stdout-only', key, 'violation', 'a file is changed: %s' % (w[0].kind), w[0].where))
            else:
                out.append(('stdout-only', key, 'ok', '', ''))
            return out
        # own temporary files that are moved over the destination are its own
        moved = {}
        for e in w:
            if e.kind == 'touch' and e.name in ('os.replace', 'os.rename', 'shutil.move') and len(e.args) == 2:
                a, b = [L.text_of(x) if not isinstance(x, tuple) else None for x in e.args]
                if b == dest:
                    moved[a] = e
        removed = {L.text_of(e.args[0]): e for e in w if e.kind == 'touch' and e.name in ('os.remove', 'os.unlink') and e.args}
        bad = [e for e in ops if e.path not in ([dest] + list(moved)) or '-u' in argv]
        bad += [e for p, e in removed.items() if p != dest or '-u' not in argv]
        bad += [e for e in w if e.kind == 'touch' and e not in moved.values() and e not in removed.values()]
        bad += [e for e in w if e.kind == 'write' and e.path not in ([dest] + list(moved))]
        if bad:
            e = bad[0]
            out.append(('designated', key, 'violation', 'designated is %s, but the run %s %s' % (
                dest if '-u' not in argv else 'the removal of ' + dest, {'open': 'opens for writing', 'write': 'writes', 'touch': 'calls ' + getattr(e, 'name', '')}[e.kind],
                getattr(e, 'path', '')), e.where))
            return out
        if '-u' in argv:
            done = dest in removed
        else:
            done = bool(ops)
        if not done:
            out.append(('designated', key, 'violation', 'the run succeeds, but does not %s %s' % (
                'remove' if '-u' in argv else 'write', dest), L.where_of('application.generate')))
            return out
        out.append(('designated', key, 'ok', dest, ''))
        # calls after the file was opened
        first = next(i for i, e in enumerate(r.events) if e in ops or e in removed.values())
        opener = r.events[first].stack[-1].split('.') if r.events[first].stack else []
        late = [e for e in r.events[first:] if e.kind == 'call' and
                not any(e.func.startswith('crazy_complete.%s.' % h) or e.func.startswith(h + '.') for h in HELPERS) and
                not e.func.startswith(('argparse.', 'yaml.', '_proc.'))]
        if late:
            out.append(('text-complete', key, 'violation', '%s is called after %s was opened' % (late[0].func, dest), late[0].where))
        else:
            out.append(('text-complete', key, 'ok', '', ''))
        if '-u' in argv:
            return out
        texts = [e for e in w if e.kind == 'write']
        op = ops[0]
        errors_kw = False
        if not moved:
            t = texts[0].text if texts else None
            enc = [e for e in r.events[:first] if e.kind == 'encode' and e.text == t]
            if t is None:
                out.append(('encodable', key, 'undecided', '', ''))
            elif enc or op.errors:
                out.append(('encodable', key, 'ok', '', ''))
            else:
                out.append(('encodable', key, 'violation', 'a text with an unpaired surrogate (JSON \\ud800) truncates %s '
                            'before writing it fails' % dest, op.where))
        words = [a for i, a in enumerate(argv) if a not in ('-o', '-i') and argv[i - 1] != '-o']
        r2 = Run(L, words, files)
        t2 = text_of_run(r2)
        if t2 is None or any(e.text is None for e in texts):
            out.append(('exact-text', key, 'undecided', '', ''))
        elif len(ops) != 1 or len(texts) < 1 or ''.join(e.text for e in texts) not in (t2, t2 + '\n'):
            out.append(('exact-text', key, 'violation', '%d opened, %d written, text %s' % (
                len(ops), len(texts), 'differs from the printed one' if texts else 'missing'), op.where))
        elif 'w' not in op.mode:
            out.append(('exact-text', key, 'violation', 'opened with mode %r: the previous content stays' % op.mode, op.where))
        else:
            out.append(('exact-text', key, 'ok', '%d characters' % len(t2), ''))
    return out


METHODS = ('write_text', 'write_bytes', 'unlink', 'rmdir', 'touch', 'rename', 'mkdir', 'truncate', 'symlink_to', 'hardlink_to')


def sites():
    """Calls of the program that can change files: (where, description, own)."""
    for mod, tree in L.p.modules.items():
        path = L.p.paths[mod]
        if mod in L.stubs and not mod.startswith('crazy_complete') and mod != '__main__':
            continue
        names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    names[a.asname or a.name] = n.module + '.' + a.name

        def dotted(f):
            if isinstance(f, ast.Name):
                return names.get(f.id, f.id)
            if isinstance(f, ast.Attribute):
                b = dotted(f.value)
                return b + '.' + f.attr if b else None
            return None
        for n in ast.walk(tree):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func)
            if d in ('open', 'io.open', 'codecs.open'):
                mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if mode is None or isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set('wax+'):
                    continue
                own = n.args and dotted(n.args[0]) == 'os.devnull'
                yield L.p.where(n), '%s: open for writing' % mod, own
            elif d and (d in TOUCH or d.startswith(TOUCH_PREFIX)):
                yield L.p.where(n), '%s: %s' % (mod, d), d.startswith('tempfile.')
            elif isinstance(n.func, ast.Attribute) and n.func.attr in METHODS and d is None or \
                    isinstance(n.func, ast.Attribute) and n.func.attr in METHODS and d and d.split('.')[0] not in names:
                yield L.p.where(n), '%s: .%s()' % (mod, n.func.attr), False


def main():
    global L
    ck = Check('C19', RULES['failing-run'], RULES, floor=300, assumptions=[
        'the models of Python builtins in sa/ are faithful',
        'the argparse and PyYAML stand-ins in sa/stubs follow the real modules'])
    L = World(ROOT)
    L.script()
    L.trace_calls = True
    items = [('fail', a) for a in scen.failing()]
    items += [('fail', a, None) for a in scen.failing() if '-i' in a or '-u' in a]
    ok = (0, '/pkgdir\n', '')
    for a in scen.working():
        items.append(('work', a, ok, True))
        if '-i' in a:
            items.append(('work', a[:-1] + ['-u'], ok, True))
            items.append(('work', a, None, False))
            items.append(('work', a, (1, '', 'error'), False))
    combos = [(sh, d) for sh in scen.OUT for d in scen.destinations(sh) if d]
    for n, (k, d, early) in enumerate(scen.malformed(L, ck.tier)):
        if ck.tier == 'thorough' or n % 2 == 0:
            sh, dest = combos[n // 2 % len(combos)]
            items.append(('malformed', k, d, early, sh, dest))
    reached = set()
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('failing-run', str(item)[:200], err)
            continue
        for r in res:
            if r[0] == '#site':
                reached.add(r[1])
            else:
                ck.merge([r])
    for where, text, own in sites():
        if own or where in reached:
            ck.ok('sites', text + ' at ' + where)
        else:
            ck.bad('sites', text, 'changes a file, but belongs to no run that designates an output file', where)
    ck.unit('runs', [' '.join(map(str, i[1])) for i in items if i[0] != 'malformed'])
    return ck.finish()
