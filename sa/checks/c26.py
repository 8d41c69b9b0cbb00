"""C26: text files are read and written as UTF-8 everywhere.

Whole runs are interpreted with virtual files; every open file is an event
whose encoding has been evaluated.  Call sites that no run reaches are judged
by the expressions of their arguments."""

import ast
import codecs

from .. import scen
from ..check import Check, pmap, ROOT
from ..engine import *
from ..world import World, Run

RULES = {
    'utf-8': 'a file that is opened as text is opened with the encoding UTF-8',
    'codec': 'text is converted from and to bytes with UTF-8 only',
}
L = None
OPEN = {'builtins.open': (1, 3), 'open': (1, 3), 'io.open': (1, 3), 'codecs.open': (1, 2), 'os.fdopen': (1, 3), 'io.TextIOWrapper': (None, 1),
        'tempfile.NamedTemporaryFile': (0, 2), 'tempfile.TemporaryFile': (0, 2), 'tempfile.SpooledTemporaryFile': (1, 3)}
DEFAULT = {'tempfile.NamedTemporaryFile': 'w+b', 'tempfile.TemporaryFile': 'w+b', 'tempfile.SpooledTemporaryFile': 'w+b',
           'codecs.open': 'rb'}
METHODS = {'read_text': 0, 'write_text': 1}
LOCALE = ('locale.', 'sys.getfilesystemencoding', 'os.environ', 'os.getenv', 'os.device_encoding', 'sys.stdin', 'sys.stdout')


def is_utf8(e):
    try:
        return codecs.lookup(e).name == 'utf-8'
    except (LookupError, TypeError):
        return False


def run(argv):
    r = Run(L, argv, scen.FILES)
    out = []
    for e in r.kinds('open', 'touch'):
        if e.kind == 'open':
            mode, enc = e.mode, e.encoding
            what = 'open(%s)' % (e.path if e.path is not None else '...')
        elif e.name in OPEN:
            mi, ei = OPEN[e.name]
            args = [a[1] if isinstance(a, tuple) else a for a in e.args]
            kw = e.kwargs

            def get(i, name, default):
                v = kw.get(name, args[i] if i is not None and i < len(args) else None)
                if v is None:
                    return default
                ok, c = const_of(v)
                return c if ok else '?'
            mode, enc = get(mi, 'mode', DEFAULT.get(e.name, 'r')), get(ei, 'encoding', None)
            what = e.name
        else:
            continue
        if mode is not None and 'b' in mode:
            verdict, text = 'ok', 'bytes'
        elif enc == '?':
            verdict, text = 'undecided', 'encoding not determined'
        elif enc is None:
            verdict, text = 'violation', '%s is opened with the encoding of the locale (run: %s)' % (what, ' '.join(argv))
        elif not is_utf8(enc):
            verdict, text = 'violation', '%s is opened with the encoding %s (run: %s)' % (what, enc, ' '.join(argv))
        else:
            verdict, text = 'ok', what
        out.append(('utf-8', e.where, verdict, text, e.where))
    return out


def names_of(tree):
    names = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                names[a.asname or a.name] = n.module + '.' + a.name
    return names


def dotted(f, names):
    if isinstance(f, ast.Name):
        return names.get(f.id, f.id)
    if isinstance(f, ast.Attribute):
        b = dotted(f.value, names)
        return b + '.' + f.attr if b else None
    if isinstance(f, ast.Call):
        return dotted(f.func, names)
    return None


def judge_expr(e, tree, names):
    """Verdict on an encoding expression."""
    if e is None or isinstance(e, ast.Constant) and e.value is None:
        return 'violation', 'no encoding is given: the one of the locale is used'
    if isinstance(e, ast.Constant):
        return ('ok', '') if is_utf8(e.value) else ('violation', 'encoding %r' % (e.value,))
    if isinstance(e, ast.Name):
        vals = [n.value for n in tree.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if len(vals) == 1:
            return judge_expr(vals[0], tree, names)
    for n in ast.walk(e):
        d = dotted(n, names) if isinstance(n, (ast.Name, ast.Attribute)) else None
        if d and d.startswith(LOCALE):
            return 'violation', 'the encoding depends on the process (%s)' % d
    return 'undecided', ''


def sites():
    """(rule, where, verdict, text) of all call sites."""
    for mod, tree in L.p.modules.items():
        if mod in L.stubs:
            continue
        names = names_of(tree)
        for n in ast.walk(tree):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func, names)
            where = L.p.where(n)
            kw = {k.arg: k.value for k in n.keywords}
            star = None in kw or any(isinstance(a, ast.Starred) for a in n.args)

            def arg(i, name):
                return kw.get(name, n.args[i] if i is not None and i < len(n.args) else None)
            if d in OPEN:
                mi, ei = OPEN[d]
                mode = arg(mi, 'mode')
                m = DEFAULT.get(d, 'r') if mode is None else mode.value if isinstance(mode, ast.Constant) else '?'
                if isinstance(m, str) and 'b' in m and not (d == 'codecs.open' and arg(ei, 'encoding')):
                    yield 'utf-8', where, 'ok', 'bytes'
                elif star or m == '?':
                    yield 'utf-8', where, 'undecided', 'arguments not determined'
                else:
                    yield ('utf-8', where) + judge_expr(arg(ei, 'encoding'), tree, names)
            elif isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
                yield ('utf-8', where) + judge_expr(arg(METHODS[n.func.attr], 'encoding'), tree, names)
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ('encode', 'decode') and (d is None or d.split('.')[0] not in (
                    'base64', 'codecs', 'json', 'quopri', 'binascii')):
                e = arg(0, 'encoding')
                if e is not None:
                    yield ('codec', where) + judge_expr(e, tree, names)


def main():
    global L
    ck = Check('C26', 'Text files are read and written as UTF-8 everywhere', RULES, floor=8, assumptions=[
        'the standard output is not opened by the program and has the encoding of the terminal'])
    L = World(ROOT)
    L.script()
    runs = [a for i, a in enumerate(scen.working()) if ck.tier == 'thorough' or i % 5 == 0 or '--include-file' in a]
    runs += [a for a, s in scen.batches()]
    runs += [a for i, a in enumerate(scen.failing()) if ck.tier == 'thorough' or i % 25 == 0]
    runs += [['--manual', 'file'], ['zsh', 'd.json', '-u'], ['yaml', 'help.txt', '--input-type=help']]
    seen = {}
    for item, res, err in pmap(run, runs):
        if err:
            ck.unknown('utf-8', ' '.join(item), err)
            continue
        for rule, where, verdict, text, w in res:
            seen.setdefault(where, {}).setdefault(verdict, text)
    # the same site may be reached with several encodings
    for where, vs in sorted(seen.items()):
        site = where.rsplit(':', 1)[0]
        if 'violation' in vs:
            ck.bad('utf-8', 'opened in %s' % site, vs['violation'], where)
        elif 'undecided' in vs:
            ck.unknown('utf-8', where, vs['undecided'])
        else:
            ck.ok('utf-8', where)
    decided = {w for w, vs in seen.items() if 'violation' in vs or set(vs) == {'ok'}}
    for rule, where, verdict, text in sites():
        if rule == 'utf-8' and where in decided:
            continue
        if verdict == 'violation':
            ck.bad(rule, '%s in %s' % (rule, where.rsplit(':', 1)[0]), text, where)
        elif verdict == 'ok':
            ck.ok(rule, where)
        else:
            ck.unknown(rule, where, text)
    ck.unit('runs', [' '.join(a) for a in runs])
    ck.unit('call sites', sorted(seen))
    return ck.finish()
