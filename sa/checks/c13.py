"""C13: every helper function a script calls is defined in that script.

The scripts the abstract interpreter derives for a corpus of definitions (every
completer alone, every condition form, every shape of options, positionals and
subcommands, every configuration) are parsed; names carrying the function prefix
must be defined, helpers must not be called without their prefix, switches must
be known to the helper, and words with a meaning to the complete helper must be
handled by the variant that is emitted."""

import ast
import itertools
import os
import re
import subprocess

from ..check import Check, pmap, ROOT
from ..gen import *
from ..scripts import *
from .. import scripts as X
from .. import shellcode
from ..shellcode import Unparsed

RULES = {
    'called-function-defined': 'every name with the function prefix that occurs in a script is defined as a function in it',
    'dependency-declared': 'a helper is never called by its bare name: the helpers a helper calls are among its '
                           'dependencies, which are emitted and renamed',
    'function-defined-once': 'no two functions of a script have the same name',
    'switch-known': 'every feature switch turned on for a helper occurs in the code of that helper',
    'call-understood': 'a literal argument that the complete helper tests for is tested for by the variant emitted',
    'commands-known': 'every other command called is a builtin, a function of the completion system or an external program',
    'variable-defined': 'a variable used at the top level of a fish script was set there before',
    'generation-finds-helper': 'no generator asks for a helper that does not exist',
}

L = None
REG = {}
CORPUS = None


def builtins_of(shell):
    cmd = {'bash': ['bash', '-c', 'compgen -b; compgen -k'], 'zsh': ['zsh', '-fc', 'print -l ${(k)builtins} ${(k)reswords}'],
           'fish': ['fish', '--no-config', '-c', 'builtin -n']}[shell]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=60)
        names = set(r.stdout.split())
    except (OSError, subprocess.SubprocessError):
        names = set()
    return names | FIXED[shell]


FIXED = {
    'bash': set('. : [ alias bind break builtin case cd command compgen complete compopt continue declare do done echo eval exec exit '
                'export false fc for function getopts hash if let local mapfile printf pushd popd read readarray readonly return set '
                'shift shopt source test time trap true type typeset unset until wait while { } ! [['.split()),
    'zsh': set('. : [ alias autoload break builtin case cd command compadd compdef compset comptags comparguments compdescribe compvalues '
               'continue declare echo emulate eval exec exit export false float functions getopts integer let local noglob print printf '
               'pushd popd read readonly return set setopt shift source test true typeset unset unsetopt zstyle zmodload zparseopts [['.split()),
    'fish': set('_ and argparse begin block break builtin case cd command commandline complete contains continue count echo else emit end '
                'eval exec exit false for function functions history if math not or path printf pwd random read return set set_color '
                'source status string switch test time true type while ! . : [ pushd popd seq isatty fish_add_path'.split()),
}


def registry(shell):
    """{helper: (code, dependencies, file:line)} from the interpreted helper modules."""
    st = L.state()
    cls = {'bash': 'bash_helpers.BashHelpers', 'fish': 'fish_helpers.FishHelpers', 'zsh': 'zsh_helpers.ZshHelpers'}[shell]
    cfg = L.config(st)
    h = L.call(st, cls, cfg, L.val(st, 'prog'))
    fns = L.attr(st, h, 'functions')
    d = items_of(st, fns)
    if d is None:
        raise AnalysisBroken('helper repository of %s not understood' % shell)
    lines = {}
    for n in ast.walk(L.p.modules['crazy_complete.%s_helpers' % shell]):
        if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            lines.setdefault(n.args[0].value, n.lineno)
    out = {}
    for k, (v, present) in d.data.items():
        name = S.encode(k[1]) if k[0] == 's' else None
        code = text(L.attr(st, v, 'code'))
        deps = items_of(st, L.attr(st, v, 'dependencies'))
        if name is None or code is None:
            continue
        dl = []
        for e in (deps.data if deps is not None and hasattr(deps, 'data') else []):
            x = text(e[0]) if isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], frozenset) else None
            if x is not None:
                dl.append(x)
        out[name] = (code, dl, 'crazy_complete/%s_helpers.py:%d' % (shell, lines.get(name, 0)))
    return out


IFDEF = re.compile(r'^\s*#ifdef\s+(\S+)', re.M)
TOKEN = re.compile(r'%s[^\s\'"()\[\]{};|&<>`$\\,:=*?!]*' % PREFIX)


def strip_comments(t):
    return '\n'.join(l for l in t.split('\n') if not l.lstrip().startswith('#'))


def used_switches(script):
    """{helper: switches} at the end of the generation."""
    st = script.used
    out = {}
    for o in st.heap.values():
        cls = getattr(o, 'cls', None)
        if cls is None or not getattr(cls, 'name', '').endswith('Helpers') or 'used_functions' not in o.data:
            continue
        d = items_of(st, o.data['used_functions'])
        if d is None:
            return None
        for k, (v, p) in d.data.items():
            s = items_of(st, v)
            if k[0] != 's' or s is None:
                return None
            els = set()
            for e in s.data if not isinstance(s.data, dict) else s.data:
                e = e[0] if isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], (frozenset, tuple)) else e
                a = one(e) if isinstance(e, frozenset) else e
                if a and a[0] == 's':
                    els.add(S.encode(a[1]))
            out[S.encode(k[1])] = els
    return out


def run(item):
    key, shell = item
    f, cfg = CORPUS[key]
    s = emit(L, shell, f(), cfg)
    reg = REG[shell]
    out = []
    if s.failed:
        if 'KeyError' in s.error:
            return [('generation-finds-helper', '%s' % shell, 'violation', '%s: %s' % (key, s.error), 'crazy_complete/%s.py' % shell)]
        return [('called-function-defined', '%s in %s' % (key, shell), 'undecided', s.error, '')]
    if s.text is None:
        return [('called-function-defined', '%s in %s' % (key, shell), 'undecided', s.error, '')]
    out.append(('generation-finds-helper', shell, 'ok', '', ''))
    try:
        code = shellcode.parse(s.text, shell)
    except Unparsed as e:
        return [('called-function-defined', '%s in %s' % (key, shell), 'undecided', 'script not understood: %s' % e, '')]
    t = strip_comments(s.text)
    defined = {}
    for n, line, enc in code.funcs:
        defined.setdefault(n, []).append((line, enc))
    file = 'crazy_complete/%s.py' % shell
    # 1. names with the prefix
    ok = True
    for n in sorted(set(TOKEN.findall(t))):
        base = n.rstrip('.-"\'/')
        if n in defined or base in defined:
            continue
        h = n[len(PREFIX) + 2:] if n.startswith(PREFIX + '__') else None
        ok = False
        out.append(('called-function-defined', ('%s in %s' % (h, shell)) if h in reg else '%s in %s: %s' % (n, shell, key), 'violation',
                    '%s: %s is referenced, but not defined' % (key, n), reg[h][2] if h in reg else file))
    if ok:
        out.append(('called-function-defined', '%s in %s' % (key, shell), 'ok', '', ''))
    # 2. bare helper names, unknown commands
    where_of = {PREFIX + '__' + h: v[2] for h, v in reg.items()}
    for c in code.cmds:
        n = c.name
        if n is None or c.words and c.words[0].quoted:
            continue
        if n in reg and n not in defined and n not in BUILTINS[shell] - {'exec', 'history', 'prefix', 'list', 'values', 'number'}:
            if n == 'exec' and not (c.func or '').startswith(PREFIX):
                continue
            fn = (c.func or '')[len(PREFIX) + 2:]
            out.append(('dependency-declared', '%s called by %s in %s' % (n, fn or 'the script', shell), 'violation',
                        '%s: line %d calls the helper %s without its prefix; it is not a dependency of %s' % (key, c.line, n, fn),
                        where_of.get(c.func, file)))
        elif n.startswith(PREFIX) or n in defined or n in BUILTINS[shell]:
            pass
        elif re.fullmatch(r'[a-z][a-z0-9]*(_[a-z0-9]+)+', n) and not have(n):
            out.append(('commands-known', '%s in %s' % (n, shell), 'violation',
                        '%s: line %d calls %s, which is no function of the script, builtin or program' % (key, c.line, n),
                        where_of.get(c.func, file)))
        elif n.startswith('__') and re.fullmatch(r'\w+', n) and shell != 'fish':
            out.append(('commands-known', '%s in %s' % (n, shell), 'violation',
                        '%s: line %d calls %s, which the script does not define' % (key, c.line, n), where_of.get(c.func, file)))
        else:
            out.append(('commands-known', '%s in %s' % (n, shell), 'ok', '', ''))
    for m in re.finditer(r'[{(]\s*(%s)\s+[\'"$]' % '|'.join(sorted(map(re.escape, reg))), t):
        line = t[t.rfind('\n', 0, m.start()) + 1:t.find('\n', m.end())]
        q = line.split(m.group(0))[0]
        if q.count('"') % 2 == 1 and m.group(0)[0] == '{':
            out.append(('dependency-declared', '%s called in a string in %s' % (m.group(1), shell), 'violation',
                        '%s: %s' % (key, line.strip()), file))
    # 3. defined once
    for n, ds in defined.items():
        top = [d for d in ds if d[1] is None]
        if len(top) > 1:
            out.append(('function-defined-once', '%s in %s' % (re.sub(r'\d+$', '', n), shell), 'violation',
                        '%s: %s is defined %d times' % (key, n, len(top)), file))
        else:
            out.append(('function-defined-once', '%s in %s' % (key, shell), 'ok', '', ''))
    # 4. switches
    sw = used_switches(s)
    if sw is None:
        out.append(('switch-known', '%s in %s' % (key, shell), 'undecided', 'switches unknown', ''))
    else:
        for h, ds in sw.items():
            if h not in reg:
                continue
            known = set(IFDEF.findall(reg[h][0]))
            for d in ds:
                k = 'switch %s of %s in %s' % (d, h, shell)
                if d in known:
                    out.append(('switch-known', k, 'ok', '', ''))
                else:
                    out.append(('switch-known', k, 'violation', '%s: %s has no section for it' % (key, h), reg[h][2]))
    # 5. literal arguments
    bodies = function_bodies(s.text, shell)
    for h, v in reg.items():
        real = PREFIX + '__' + h
        if real not in bodies:
            continue
        full = strip_comments('\n'.join(l for l in v[0].split('\n')))
        for args in call_args(t, code, real, shell, h):
            for a in args:
                if not re.fullmatch(r'-[a-zA-Z]|--[a-z-]+|[A-Z_]{6,}|[a-z_]{3,}', a):
                    continue
                if tests_for(full, a) and a in handled(v[0]):
                    k = '%s %s in %s' % (h, a, shell)
                    if tests_for(bodies[real], a):
                        out.append(('call-understood', k, 'ok', '', ''))
                    else:
                        out.append(('call-understood', k, 'violation',
                                    '%s: %s is called with %s, which the emitted variant does not handle' % (key, real, a), v[2]))
    # 6. variables of fish
    if shell == 'fish':
        seen = set(code.locals.get(None, {})) | {n for n, f_, *_ in code.sets if f_ is None}
        for c in code.cmds:
            if c.func is not None:
                continue
            for w in c.words:
                for x in w.vars:
                    k = '$%s' % re.sub(r'\d+', 'N', x)
                    if x in seen or x in ('argv', 'status', 'PATH', 'CAPTURED'):
                        out.append(('variable-defined', k, 'ok', '', ''))
                    else:
                        out.append(('variable-defined', k, 'violation', '%s: line %d uses $%s' % (key, c.line, x), file))
    return out


def handled(code):
    """Words that stand inside conditional sections or in tests on arguments."""
    out = set()
    for l in strip_all(code):
        out.update(re.findall(r'-[a-zA-Z]\b|[A-Z_]{6,}|[a-z_]{3,}', l))
        out.update('-' + m for m in re.findall(r"'([a-zA-Z])/", l))
    return out


def strip_all(code):
    """Lines inside #ifdef sections."""
    depth = 0
    for l in code.split('\n'):
        x = l.lstrip()
        if x.startswith('#ifdef'):
            depth += 1
        elif x.startswith('#endif'):
            depth -= 1
        elif depth and not x.startswith('#'):
            yield l


def tests_for(code, a):
    """Does the code compare something with the word?"""
    e = re.escape(a)
    return bool(re.search(r'(==|!=|=)\s*["\']?%s["\']?(\s|;|\]|$)' % e, code) or
                re.search(r'^\s*[\'"]?%s[\'"]?\)' % e, code, re.M) or
                (len(a) == 2 and a[0] == '-' and re.search(r"'%s/" % re.escape(a[1]), code)))


def function_bodies(t, shell):
    out, cur, name = {}, None, None
    for l in t.split('\n'):
        m = re.match(r'function (\S+)' if shell == 'fish' else r'(\S+)\(\) \{', l)
        if m:
            name, cur = m.group(1), []
        elif l in ('end', '}') and name:
            out[name] = '\n'.join(cur)
            name = None
        elif name:
            cur.append(l)
    return out


def call_args(t, code, real, shell, h):
    """Literal words in front of the first non-literal one, per call."""
    for c in code.cmds:
        if c.name == real:
            yield lits(c.words[1:])
    # calls inside strings
    names = [re.escape(real)]
    if shell == 'fish':
        names.append(r'\$%s\b' % re.escape(h))
    for m in re.finditer(r'(?:%s) ([^\n]*)' % '|'.join(names), t):
        ws = re.split(r'[\s\'")}&|]+', m.group(1))
        yield list(itertools.takewhile(lambda w: w and '$' not in w and w != '--', ws))[:4]


def lits(ws):
    out = []
    for w in ws:
        if w.lit is None or w.lit == '--':
            break
        out.append(w.lit)
    return out[:4]


_have = {}


def have(n):
    if n not in _have:
        _have[n] = any(os.access(os.path.join(d, n), os.X_OK) for d in os.environ.get('PATH', '').split(':') + ['/usr/bin', '/bin', '/sbin', '/usr/sbin'])
    return _have[n]


BUILTINS = {}


def collisions():
    """Commands whose paths differ only in characters that identifiers do not have."""
    out = {}
    for a, b in (('x-y', ('x', 'y')), ('x_y', ('x', 'y')), ('x-y', ('x_y',)), ('x.y', ('x-y',))):
        def make(a=a, b=b):
            t = simple()
            o = lambda n: [(['--' + n], dict(complete=['exec', 'cmd ' + n]))]
            t.subs = [simple(options=o('one'), prog=a)]
            s = simple(options=o('two'), prog=b[0])
            t.subs.append(s)
            if len(b) > 1:
                s.subs = [simple(options=o('three'), prog=b[1])]
            return t
        out['commands %r and %r' % (a, ' '.join(b))] = (make, {})
    for a, b in ((['--x-y'], ['--x_y']), (['-a'], ['-a'])):
        def make2(a=a, b=b):
            t = simple(options=[(a, dict(complete=['list', ['exec', 'c1']]))] + ([(b, dict(complete=['list', ['exec', 'c2']]))] if a != b else []))
            t.subs = [simple(prog='s', options=[(b, dict(complete=['list', ['exec', 'c3']]))])]
            return t
        out['options %r and %r' % (a, b)] = (make2, {})
    return out


def main():
    global L, CORPUS
    ck = Check('C13', 'Every helper function a script calls is defined in that script', RULES, floor=300, assumptions=[
        'the corpus uses every completer alone, every condition form, every kind of option, positional and subcommand and every '
        'configuration setting; the text of a script is derived by abstract interpretation of the generators',
        'names starting with an underscore that are not defined in the script belong to the completion system of the shell'])
    L = Lab(ROOT)
    L.I.max_steps = 20_000_000
    for s in SHELLS:
        REG[s] = registry(s)
        BUILTINS[s] = builtins_of(s)
        ck.unit('helpers of ' + s, REG[s])
        for h, (code, deps, where) in REG[s].items():
            for d in deps:
                if d in REG[s]:
                    ck.ok('dependency-declared', '%s of %s in %s' % (d, h, s))
                else:
                    ck.bad('dependency-declared', '%s of %s in %s' % (d, h, s), 'the dependency %r of %s does not exist' % (d, h), where)
    CORPUS = corpus(ck.tier)
    CORPUS.update(collisions())
    items = [(k, s) for k in CORPUS for s in SHELLS]
    for (k, s), res, err in pmap(run, items):
        if err:
            ck.unknown('called-function-defined', '%s in %s' % (k, s), err)
        else:
            ck.merge(res)
    ck.unit('scripts', ['%s: %s' % (s, k) for k, s in items])
    return ck.finish()
