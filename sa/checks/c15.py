"""C15: generated code does not leak names into the user's interactive shell.

The scripts of the corpus are parsed; every assignment outside of a subshell is
resolved against the scoping rules of the shell."""

import re

from ..check import Check, pmap, ROOT
from ..gen import *
from ..scripts import *
from .. import shellcode
from ..shellcode import Unparsed
from .c13 import registry

RULES = {
    'assigned-locally': 'a variable that emitted code assigns is local to the function, to all of its callers, or belongs to the '
                        'interface of completion functions; fish code makes nothing global but its documented caches',
    'no-top-level-variable': 'sourcing a bash or zsh script sets no variable; a fish script erases what it sets or keeps it in a '
                             'variable with its prefix',
    'function-prefixed': 'every function that is defined carries the function prefix',
    'reference-local': 'a name passed to a function that assigns through it (local -n) is local to the caller',
}

L = None
CORPUS = None
REG = {}

INTERFACE = {
    'bash': set('COMPREPLY COMP_LINE COMP_POINT COMP_WORDS COMP_CWORD REPLY_ cur prev words cword split words_dequoted IFS_'.split()),
    'zsh': set('PREFIX SUFFIX IPREFIX ISUFFIX QIPREFIX QISUFFIX words CURRENT compstate service state line opt_args context '
               'state_descr curcontext expl ret reply REPLY match mbegin mend MATCH MBEGIN MEND compskip _compskip'.split()),
    'fish': {'argv', 'status'},
}
SETUP = {'bash': {'cur', 'prev', 'words', 'cword', 'split'}}


def visible(code, f, callers, entry, memo):
    """Names that are local in f or, however it is called, in one of its callers."""
    if f in memo:
        return memo[f]
    memo[f] = None          # recursion: no constraint
    own = set(code.locals.get(f, {}))
    up = None
    for g in callers.get(f, ()):
        v = visible(code, g, callers, entry, memo) if g is not None else set()
        if v is not None:
            up = v if up is None else up & v
    if f in entry:
        up = set()
    if up is None:
        up = None if not callers.get(f) and f not in entry else up
    r = own | (up if up is not None else set())
    if up is None and not callers.get(f):
        r = own | {'*'}       # called in ways that are not visible (by name in a string)
    memo[f] = r
    return r


def call_graph(code, t, shell):
    names = {n for n, l, e in code.funcs}
    callers = {}
    for c in code.cmds:
        if c.name in names:
            callers.setdefault(c.name, set()).add(c.func)
        for w in c.words[1:] if c.name in names or c.name in ('eval', 'compgen', 'command') or c.name is None else ():
            for m in re.findall(r'%s\w*' % PREFIX, w.lit or w.raw):
                if m in names:      # passed by name: the callee (or a function it calls) calls it
                    callers.setdefault(m, set()).add(c.name if c.name in names else c.func)
    return names, callers


def bash(key, code, t, reg):
    out = []
    names, callers = call_graph(code, t, 'bash')
    where_of = {PREFIX + '__' + h: v[2] for h, v in reg.items()}
    enc = {n: e for n, l, e in code.funcs}
    entry = set()
    for c in code.cmds:
        if c.func is None and c.name == 'complete':
            entry.update(w.lit for w in c.words if w.lit in names)
    # indirect calls: a function whose name occurs elsewhere than as a command
    for n in names:
        if n not in callers and n not in entry:
            callers.setdefault(n, set())
    memo = {}
    sub_only = {}
    for c in code.cmds:
        if c.name in names:
            sub_only[c.name] = sub_only.get(c.name, True) and c.sub > 0
    refs = {}
    for f, d in code.namerefs.items():
        for n, num in d.items():
            refs.setdefault(f, {})[n] = num

    def base(f):
        f0 = f
        if f in where_of:
            return f[len(PREFIX) + 2:], where_of[f]
        while f is not None and f not in where_of and enc.get(f):
            f = enc[f]
        if f in where_of:
            return f[len(PREFIX) + 2:], where_of[f]
        n = (f0 or 'script')
        if n.endswith('__parse_commandline') or enc.get(n, '') and str(enc[n]).endswith('__parse_commandline'):
            return 'parse_commandline', 'crazy_complete/bash_parser.py'
        return re.sub(PREFIX, '', n), 'crazy_complete/bash.py'

    def check(n, f, line, how):
        nm, where = base(f)
        k = '%s in %s of bash' % (n, nm)
        if f in refs and n in refs[f]:
            return
        if n in INTERFACE['bash'] and n not in SETUP['bash'] - {'words', 'cword'} | {'words_dequoted'}:
            if n.startswith('COMP') or f is not None:
                out.append(('assigned-locally', k, 'ok', '', ''))
                return
        v = visible(code, f, callers, entry, memo) if f is not None else set()
        if f is None:
            out.append(('no-top-level-variable', '%s in bash' % n, 'violation', '%s: line %d sets %s' % (key, line, n), where))
        elif v is None or n in v or '*' in v and n in SETUP['bash'] | {'words_dequoted'}:
            out.append(('assigned-locally', k, 'ok', '', ''))
        elif sub_only.get(f):
            out.append(('assigned-locally', k, 'ok', '', ''))
        elif '*' in v and not n.startswith('_') and is_captured(n):
            out.append(('assigned-locally', k, 'ok', '', ''))
        else:
            out.append(('assigned-locally', k, 'violation',
                        '%s: line %d assigns %s (%s), which is not local to %s or its callers' % (key, line, n, how, nm), where))
    for n, f, sub, line, how in code.sets:
        if sub:
            continue
        check(n, f, line, how)
    for c in code.cmds:
        if c.sub or c.name not in refs:
            continue
        for n, num in refs[c.name].items():
            if num <= 0 or num >= len(c.words):
                continue
            lit = c.words[num].lit
            if lit is None or not re.fullmatch(r'\w+', lit):
                continue
            if lit in ('COMP_WORDS', 'COMPREPLY'):
                continue
            v = visible(code, c.func, callers, entry, memo) if c.func else set()
            nm, where = base(c.func)
            k = '%s passed by %s to %s' % (lit, nm, base(c.name)[0])
            if v is None or lit in v or '*' in v and lit in SETUP['bash']:
                out.append(('reference-local', k, 'ok', '', ''))
            else:
                out.append(('reference-local', k, 'violation', '%s: line %d: %s assigns %s, which is not local' % (key, c.line, c.name, lit), where))
    return out


def is_captured(n):
    return n == 'CAPTURED' or n.startswith('OPT_')


def zsh(key, code, t, reg):
    out = []
    names, callers = call_graph(code, t, 'zsh')
    where_of = {PREFIX + '__' + h: v[2] for h, v in reg.items()}
    entry = {n for n in names if n == PREFIX}
    memo = {}
    for n, f, sub, line, how in code.sets:
        if sub:
            continue
        nm = f[len(PREFIX) + 2:] if f in where_of else re.sub(PREFIX, '', f or 'script')
        where = where_of.get(f, 'crazy_complete/zsh.py')
        k = '%s in %s of zsh' % (n, nm)
        if f is None:
            # a script without #compdef is sourced; zsh autoloads #compdef scripts as functions
            out.append(('no-top-level-variable', '%s in zsh' % n, 'violation', '%s: line %d sets %s' % (key, line, n), where))
            continue
        v = visible(code, f, callers, entry, memo)
        if n in INTERFACE['zsh'] or v is None or n in v or n in QUERY and '*' in v:
            out.append(('assigned-locally', k, 'ok', '', ''))
        else:
            out.append(('assigned-locally', k, 'violation',
                        '%s: line %d assigns %s (%s), which is not local to %s or its callers' % (key, line, n, how, nm), where))
    return out


QUERY = set('HAVING_OPTIONS OPTION_VALUES POSITIONALS INCOMPLETE_OPTION'.split())

CAPTURES = {'CAPTURED', 'CAP'}
FISH_CACHES = re.compile(r'__QUERY_CACHE_\w+|__fish_stripprefix|CAPTURED')


def named(code, f):
    """Is the variable named by the caller, and does every caller name the capture variable?"""
    calls = [c for c in code.cmds if c.name == f]
    return bool(calls) and all(len(c.words) > 1 and c.words[1].lit in CAPTURES for c in calls)


def fish(key, code, t, reg):
    out = []
    where_of = {PREFIX + '__' + h: v[2] for h, v in reg.items()}
    erased = set(re.findall(r'^\s*set -e\w* (\w+)', t, re.M))
    for n, f, sub, line, how in code.sets:
        nm = f[len(PREFIX) + 2:] if f in where_of else re.sub(PREFIX, '', f or 'script')
        where = where_of.get(f, 'crazy_complete/fish.py')
        k = '%s in %s of fish' % (n, nm)
        glob = how in ('set -g', 'set -U', 'set -x', 'read -g', 'set -gx', 'set -Ux')
        if f is None:
            if how == 'for' or re.match(PREFIX, n) or n in erased:
                out.append(('no-top-level-variable', '%s in fish' % n, 'ok', '', ''))
            else:
                out.append(('no-top-level-variable', '%s in fish' % n, 'violation',
                            '%s: line %d sets %s in the scope of the shell that sources the script' % (key, line, n), where))
        elif not glob or FISH_CACHES.fullmatch(n) or n[:1] == '$' and named(code, f):
            out.append(('assigned-locally', k, 'ok', '', ''))
        else:
            out.append(('assigned-locally', k, 'violation', '%s: line %d: %s %s' % (key, line, how, n), where))
    for w in code.cmds:
        if w.func is None and w.name == 'alias':
            out.append(('function-prefixed', '%s in fish' % w.words[1].raw, 'violation', '%s: line %d defines an alias' % (key, w.line), 'crazy_complete/fish.py'))
    return out


def captures(t):
    out = {o.attrs['capture'] for o in t.options if isinstance(o.attrs.get('capture'), str)}
    for x in t.subs or ():
        out |= captures(x)
    return out


def run(item):
    key, shell = item
    f, cfg = CORPUS[key]
    tree = f()
    s = emit(L, shell, tree, cfg)
    s.tree = tree
    if s.text is None:
        return [('assigned-locally', '%s in %s' % (key, shell), 'undecided', s.error, '')]
    try:
        code = shellcode.parse(s.text, shell)
    except Unparsed as e:
        return [('assigned-locally', '%s in %s' % (key, shell), 'undecided', 'script not understood: %s' % e, '')]
    CAPTURES.update(captures(s.tree))
    reg = REG[shell]
    where_of = {PREFIX + '__' + h: v[2] for h, v in reg.items()}
    out = {'bash': bash, 'zsh': zsh, 'fish': fish}[shell](key, code, s.text, reg)
    for n, line, enc in code.funcs:
        if n.startswith(PREFIX):
            out.append(('function-prefixed', '%s in %s' % (key, shell), 'ok', '', ''))
        else:
            out.append(('function-prefixed', '%s in %s' % (n, shell), 'violation',
                        '%s: line %d defines %s' % (key, line, n), where_of.get(enc, 'crazy_complete/%s.py' % shell)))
    return out


def main():
    global L, CORPUS
    ck = Check('C15', "Generated code does not leak names into the user's interactive shell", RULES, floor=300, assumptions=[
        'the corpus uses every completer alone, every condition form, every kind of option, positional and subcommand and every '
        'configuration setting; the text of a script is derived by abstract interpretation of the generators',
        'COMPREPLY and COMP_* in bash, the special parameters of completion functions in zsh and the query cache, the capture variable '
        'and __fish_stripprefix in fish belong to the interface',
        'code of definitions itself (exec, include_files) is not judged'])
    L = Lab(ROOT)
    L.I.max_steps = 20_000_000
    from . import c13
    c13.L = L
    for s in SHELLS:
        REG[s] = registry(s)
    CORPUS = corpus(ck.tier)
    items = [(k, s) for k in CORPUS for s in SHELLS]
    for (k, s), res, err in pmap(run, items):
        if err:
            ck.unknown('assigned-locally', '%s in %s' % (k, s), err)
        else:
            ck.merge(res)
    ck.unit('scripts', ['%s: %s' % (s, k) for k, s in items])
    return ck.finish()
