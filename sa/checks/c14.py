"""C14: emitted helper code is well-formed shell code in every variant.

Every helper of the three repositories is put through the (abstractly
interpreted) emitter once per subset of its feature switches; the results, and
the scripts derived for the corpus of definitions, are given to the parsers of
the shells, which only read them (bash -n, zsh -n, fish --no-execute). Code that
the scripts carry in strings is extracted and parsed as well."""

import ast
import itertools
import os
import re
import subprocess
import tempfile

from ..check import Check, pmap, ROOT
from ..gen import *
from ..scripts import *
from .. import shellcode
from ..shellcode import Unparsed
from . import c13
from .c13 import registry

RULES = {
    'sections-nested': 'in every code template, #ifdef, #else and #endif are balanced and properly nested, with at most one #else per section',
    'helper-parses': 'every helper, emitted with any subset of its switches, is code the shell can parse',
    'script-parses': 'the script of every definition of the corpus is code the shell can parse',
    'embedded-parses': 'code carried in strings (fish conditions and completion commands, code for eval and source) can be parsed',
    'emitter-agrees': 'what the emitter keeps of a template is what the switches select',
}

L = None
CORPUS = None
REG = {}
SCRATCH = None

CMD = {'bash': ['bash', '--norc', '--noprofile', '-O', 'extglob', '-n'], 'zsh': ['zsh', '-f', '-o', 'extendedglob', '-n'],
       'fish': ['fish', '--no-config', '--no-execute']}


def parses(shell, text):
    """(True, '') / (False, message) / (None, reason)"""
    with tempfile.NamedTemporaryFile('w', suffix='.' + shell, dir=SCRATCH, delete=False, encoding='utf-8', errors='surrogateescape') as f:
        f.write(text)
    try:
        r = subprocess.run(CMD[shell] + [f.name], capture_output=True, text=True, timeout=60, errors='replace',
                           env={'PATH': os.environ.get('PATH', ''), 'HOME': SCRATCH, 'LC_ALL': 'C.UTF-8'}, stdin=subprocess.DEVNULL)
    except (OSError, subprocess.SubprocessError) as e:
        return None, 'cannot run %s: %s' % (shell, e)
    finally:
        os.unlink(f.name)
    err = (r.stderr or r.stdout).replace(f.name, 'script').strip()
    if r.returncode == 0 and not err:
        return True, ''
    return False, err.split('\n')[0][:200]


DIRECTIVE = re.compile(r'^\s*#(ifdef|else|endif)\b[ \t]*(.*?)\s*$', re.M)


def nested(code):
    """None, or what is wrong with the conditional sections."""
    stack = []
    for m in DIRECTIVE.finditer(code):
        line = code.count('\n', 0, m.start()) + 1
        k, arg = m.groups()
        if k == 'ifdef':
            if not re.fullmatch(r'\w+', arg):
                return 'line %d: #ifdef without a single name' % line
            stack.append(['ifdef', arg])
        elif not stack:
            return 'line %d: #%s without #ifdef' % (line, k)
        elif k == 'else':
            if stack[-1][0] == 'else':
                return 'line %d: second #else' % line
            stack[-1][0] = 'else'
        else:
            stack.pop()
    if stack:
        return 'unterminated #ifdef %s' % stack[-1][1]
    return None


def select(code, defines):
    """The lines of a template that a set of switches selects."""
    out, stack = [], []
    for l in code.split('\n'):
        m = DIRECTIVE.match(l)
        if m:
            if m.group(1) == 'ifdef':
                stack.append(m.group(2) in defines)
            elif m.group(1) == 'else':
                stack[-1] = not stack[-1]
            else:
                stack.pop()
        elif all(stack):
            out.append(l)
    return '\n'.join(out)


def switches(code):
    return sorted({m.group(2) for m in DIRECTIVE.finditer(code) if m.group(1) == 'ifdef'})


def subsets(xs, tier):
    if len(xs) <= (10 if tier == 'thorough' else 7):
        return itertools.chain.from_iterable(itertools.combinations(xs, n) for n in range(len(xs) + 1))
    return itertools.chain.from_iterable(itertools.combinations(xs, n) for n in (0, 1, 2, len(xs) - 2, len(xs) - 1, len(xs)))


def squeeze(t):
    return [l.strip() for l in t.split('\n') if l.strip()]


def helper(item):
    shell, name, code, where, subs = item
    out = []
    cls = 'helpers.FishFunction' if shell == 'fish' else 'helpers.ShellFunction'
    base = '%s in %s' % (name, shell)
    for ds in subs:
        k = '%s with %s' % (base, '+'.join(ds) or 'nothing')
        st = L.state()
        L.I.steps = 0
        try:
            f = L.call(st, cls, L.val(st, name), L.val(st, code))
            r = L.meth(st, f, 'get_code', L.val(st, 'fn_' + name), L.val(st, set(ds)))
        except AnalysisBroken as e:
            out.append(('helper-parses', k, 'undecided', str(e), ''))
            continue
        t = text(r)
        if t is None:
            out.append(('helper-parses', k, 'undecided', 'text not derived', ''))
            continue
        want = squeeze(select(code, ds).replace('%FUNCNAME%', 'fn_' + name))
        got = squeeze(t)[1:-1]
        if want == got:
            out.append(('emitter-agrees', base, 'ok', '', ''))
        else:
            diff = next((b or a for a, b in itertools.zip_longest(want, got) if a != b), '')
            out.append(('emitter-agrees', base, 'violation', 'with the switches %s the emitted code is not what the sections select: %s'
                        % ('+'.join(ds) or 'none', diff), 'crazy_complete/preprocessor.py'))
        ok, msg = parses(shell, t.replace('%PREFIX%', 'prefix'))
        if ok is None:
            out.append(('helper-parses', k, 'undecided', msg, ''))
        else:
            out.append(('helper-parses', base if not ok else k, 'ok' if ok else 'violation', msg and 'with the switches %s: %s' % ('+'.join(ds) or 'none', msg), where))
    return out


def embedded(code, t, shell):
    """Code carried in strings: [(what, code)]"""
    out = []
    if shell == 'fish':
        for c in code.cmds:
            if c.name == 'complete' and c.func is None:
                ws = c.words
                for a, b in zip(ws, ws[1:]):
                    if b.lit is None:
                        continue
                    if a.lit in ('-n', '--condition'):
                        out.append(('condition', b.lit))
                    elif a.lit in ('-a', '--arguments'):
                        out.append(('arguments', 'echo ' + b.lit))
                for w in ws:
                    if w.lit and re.match(r'-[a-z]*n$', w.lit) and w.lit not in ('-n',):
                        i = ws.index(w)
                        if i + 1 < len(ws) and ws[i + 1].lit is not None:
                            out.append(('condition', ws[i + 1].lit))
    for c in code.cmds:
        if c.name == 'eval' and len(c.words) > 1 and all(w.lit is not None for w in c.words[1:]):
            out.append(('eval', ' '.join(w.lit for w in c.words[1:])))
    return out


def run(item):
    key, shell = item
    f, cfg = CORPUS[key]
    s = emit(L, shell, f(), cfg)
    k = '%s in %s' % (key, shell)
    file = 'crazy_complete/%s.py' % shell
    if s.text is None:
        return [('script-parses', k, 'undecided', s.error, '')]
    ok, msg = parses(shell, s.text)
    if ok is None:
        return [('script-parses', k, 'undecided', msg, '')]
    out = [('script-parses', k, 'ok' if ok else 'violation', msg and '%s: %s' % (key, msg), file)]
    try:
        code = shellcode.parse(s.text, shell)
    except Unparsed as e:
        return out
    seen = set()
    bad = None
    parts = [x for x in embedded(code, s.text, shell) if not (x in seen or seen.add(x))]
    if parts:
        joined = '\n'.join(c for w, c in parts) + '\n'
        ok, msg = parses(shell, joined)
        if ok:
            out.append(('embedded-parses', k, 'ok', '', ''))
        elif ok is False:
            for w, c in parts:
                ok, msg = parses(shell, c + '\n')
                if ok is False:
                    out.append(('embedded-parses', k, 'violation', '%s: %s %r: %s' % (key, w, c, msg), file))
                    break
            else:
                out.append(('embedded-parses', k, 'ok', '', ''))
    return out


def templates():
    """String constants of the source with conditional sections: [(text, where)]"""
    out = []
    for m, tree in L.p.modules.items():
        if not m.startswith('crazy_complete.') or 'preprocessor' in m or 'shtab' in m:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and DIRECTIVE.search(n.value):
                out.append((n.value, '%s:%d' % (m.replace('.', '/') + '.py', n.lineno)))
    return out


def main():
    global L, CORPUS, SCRATCH
    ck = Check('C14', 'Emitted helper code is well-formed shell code in every variant', RULES, floor=300, assumptions=[
        'bash -n, zsh -n and fish --no-execute read code without running it; their verdict is the definition of well-formedness',
        'helpers with more than seven switches (ten in the thorough tier) are emitted with every choice of up to two switches on or off'])
    L = Lab(ROOT)
    L.I.max_steps = 20_000_000
    c13.L = L
    with tempfile.TemporaryDirectory(prefix='c14-') as SCRATCH:
        globals()['SCRATCH'] = SCRATCH
        items = []
        for s in SHELLS:
            REG[s] = registry(s)
            ck.unit('helpers of ' + s, REG[s])
            for name, (code, deps, where) in REG[s].items():
                w = nested(code)
                if w:
                    ck.bad('sections-nested', '%s in %s' % (name, s), w, where)
                    continue
                ck.ok('sections-nested', '%s in %s' % (name, s))
                subs = list(subsets(switches(code), ck.tier))
                for i in range(0, len(subs), 24):
                    items.append((s, name, code, where, subs[i:i + 24]))
        for t, where in templates():
            w = nested(t)
            if w:
                ck.bad('sections-nested', 'template at %s' % where, w, where)
            else:
                ck.ok('sections-nested', 'template at %s' % where)
        ck.unit('helper variants', ['%s/%s/%s' % (s, n, '+'.join(d)) for s, n, c, w, ds in items for d in ds])
        for it, res, err in pmap(helper, items):
            if err:
                ck.unknown('helper-parses', '%s in %s' % (it[1], it[0]), err)
            else:
                ck.merge(res)
        CORPUS = corpus(ck.tier)
        CORPUS.update(c13.collisions())
        items = [(k, s) for k in CORPUS for s in SHELLS]
        for (k, s), res, err in pmap(run, items):
            if err:
                ck.unknown('script-parses', '%s in %s' % (k, s), err)
            else:
                ck.merge(res)
        ck.unit('scripts', ['%s: %s' % (s, k) for k, s in items])
        return ck.finish()
