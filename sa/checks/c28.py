"""C28: glob patterns are translated construct by construct.

The translations are interpreted abstractly for every construct of bash globs,
alone and combined, with every special character in every way of quoting it; the
text they give is read as a regular expression or as a zsh pattern and both
languages are compared as automata."""

import itertools

from ..check import Check, pmap, ROOT
from ..gen import *
from ..globs import *
from .. import strings as S

RULES = {
    'regex': 'the regular expression matches exactly the texts the glob matches',
    'zsh-pattern': 'the zsh pattern is one word and matches exactly the texts the glob matches',
    'rejected': 'a pattern is rejected only with ValueError, and only if it is malformed or uses a construct the target lacks',
    'validated': 'validation accepts exactly the patterns both translations accept, and reports the others',
    'used': 'the scripts of fish, zsh and bash hold exactly the translated patterns',
}
FUNCS = {'regex': 'pattern.bash_glob_to_regex', 'zsh-pattern': 'pattern.bash_glob_to_zsh_glob'}
L = None
ASCII = [chr(c) for c in range(33, 127)] + [' ']
SPECIAL = list('.?*+|{}[]()^$\\!@"\'#~<>&;-, =%`/') + [' ']


def quotings(c):
    """Ways to write the character c as a literal in a glob."""
    out = []
    if c not in '*?[\'"\\':
        out.append(c)
    out.append('\\' + c)
    if c != "'":
        out.append("'%s'" % c)
    out.append('"%s"' % ('\\' + c if c in '"\\' else c))
    return out


def patterns(tier):
    out = {}

    def add(construct, *ps):
        for p in ps:
            out.setdefault(p, construct)
    for c in ASCII:
        for q in quotings(c):
            add('literal ' + c, q)
            if c in SPECIAL:
                add('literal %s beside others' % c, 'a' + q, q + 'b', 'a' + q + 'b', q + '*', '*' + q, '?' + q, '@(%s)' % q, '@(a|%sb)' % q,
                    '[a]' + q, q + '[a]', q + q)
        if c not in ']':
            for q in quotings(c):
                if q == '[' or (c in '!^' and q == c):
                    continue
                add('class with ' + c, '[%s]' % q, '[a%s]' % q, '[%sa]' % q if c != '-' else '[-a]', '[!%s]' % q, '[!a%s]' % q)
        else:
            add('class with ' + c, '["]"]', "[']']", '["]"a]', '[!"]"]', '[\\]]', '[a\\]]', '[!\\]a]')
    add('class', '[abc]', '[!abc]', '[^abc]', '[a-c]', '[!a-c]', '[^a-c]', '[a-cx-z0-9]', '[a-]', '[a!b]', '[a^b]', '[tT][xX]', '[!a][b]*', '[a.b]',
        '[a*?]', '[(|)]', '[a-c]?', '*[a-c]*', '["ab"]', "['a'b]", '[a"b"c]', '[a@(]', '[+(]', '[a|b]', '[ab!]')
    add('star', '*', '**', 'a*', '*a', '*a*', '*.*', '*.c++', '*.[tT][xX][tT]')
    add('question', '?', '??', 'a?', '?a', '*?', '?*')
    add('text', 'abc', 'a.b', 'file.txt', '"abc"', "'abc'", "'a'b'c'", 'a"b"c', 'é', '中文', 'a@b', 'a+b', 'a!b', '!a', 'a!', '!', '@', '+',
        '@a', 'a|b', '|', 'a)', ')', 'a]', ']', '$HOME', 'a$', '^a', '~', '~a', 'a~b', 'a#', '#a', '=a', '<1-2>', 'a b', 'a  b', '`x`', 'a\\.b', 'a\\*b', '%', '{a,b}', 'a{2}')
    alts = ['a', 'ab', 'abcd', 'ab|cd', '*', '?', '*a', '[ab]', '[ab]c', '\\*', '\\*a', 'foo', 'foo|bar', '|foo', 'foo|', 'a|b|c', '*a|b', '?|b', '[ab]|c', 'a.b|c+', '@(a|b)', '@(a|b)|c', 'a@(b|c)d', '"a|b"', "'('|b", 'a|', '!a|b', 'a!|b']
    for t in EXT:
        for a in alts:
            add('group ' + t, '%s(%s)' % (t, a))
            add('group ' + t, 'x%s(%s)y' % (t, a), '*%s(%s)' % (t, a))
        for u in EXT:
            add('group %s in %s' % (u, t), '%s(%s(a|b)|c)' % (t, u), '%s(x%s(a)y)' % (t, u))
    add('malformed', '@(foo', '[abc', '"abc', "'abc", '@(', '[', '[]', '[!]', '[!', '[^', '"', "'", '*(a|', '@(a|@(b)', '"a\\', 'a\\')
    add('named class', '[[:alpha:]]', '[[:alpha:][:digit:]]', '[a[:digit:]]', '[![:space:]]', '[[.a.]]', '[[=a=]]')
    parts = ['a', '*', '?', '[bc]', '[!bc]', '@(d|e)', '*(d|e)', '.', "'*'", '\\?']
    for n in (2, 3) if tier == 'thorough' else (2,):
        for x in itertools.product(parts, repeat=n):
            add('sequence', ''.join(x))
    for x in itertools.product(parts, repeat=2):
        add('sequence in group', '@(%s|%s)' % x)
    return out


class Result:
    def __init__(self, text=None, exc=None, unknown=None):
        self.text, self.exc, self.unknown = text, exc, unknown


def exceptions(fr):
    out = set()
    for v, st, node, *_ in fr.excs():
        for a in v:
            n = a[1] if a[0] == 'xi' else getattr(st.heap[a[1]].cls, 'name', '?') if a[0] == 'o' else '?'
            out.add((str(n).rsplit('.', 1)[-1], L.p.where(node) if node is not None else ''))
    return sorted(out)


def translate(func, p):
    L.I.steps = 0
    st = L.state()
    with L.frame() as fr:
        try:
            v = L.call(st, func, L.val(st, p))
        except Bottom:
            v = BOT
        except AnalysisBroken as e:
            return Result(unknown=str(e))
    ex = exceptions(fr)
    if not v and len(ex) == 1:
        return Result(exc=ex[0])
    ss = [S.encode(a[1]) for a in v if a[0] == 's']
    if len(ss) == 1 == len(v) and ss[0] is not None and not ex:
        return Result(text=ss[0])
    if len(v) == 1 and not ss and not ex:
        return Result(exc=('result is no text', ''))
    return Result(unknown='result not derived')


LACKS = {'regex': ('!(',), 'zsh-pattern': ('!(', '*(', '+(', '?(')}


def read_zsh_one(t):
    w = read_zsh(t)
    if len(w) != 1:
        raise Bad('%d words' % len(w))
    return w[0]


READ = {'regex': read_regex, 'zsh-pattern': read_zsh_one}


def run(item):
    p, construct = item
    out = []
    try:
        want = read_glob(p)
        why = None
    except Bad as e:
        want, why = None, 'malformed: %s' % e
    except Unsupported as e:
        want, why = None, 'unsupported: %s' % e
    for rule, func in FUNCS.items():
        f = L.where_of(func)
        key = '%s: %s' % (construct, p)
        r = translate(func, p)
        if r.unknown:
            out.append((rule, key, 'undecided', r.unknown, ''))
            continue
        if r.exc:
            name, where = r.exc
            if name != 'ValueError':
                out.append(('rejected', '%s by %s' % (key, rule), 'violation', 'the pattern %r ends in %s' % (p, name), where or f))
            elif want is None or any(x in p for x in LACKS[rule]):
                out.append(('rejected', '%s by %s' % (key, rule), 'ok', '', ''))
            else:
                out.append(('rejected', '%s by %s' % (key, rule), 'violation', 'the pattern %r is well formed, but rejected' % p, where or f))
            continue
        if want is None:
            if why.startswith('malformed'):
                out.append(('rejected', '%s by %s' % (key, rule), 'violation', 'the pattern %r is accepted (%s), giving %r' % (p, why, r.text), f))
            else:
                # translated some way: right only if the reader of the target
                # does not know the construct either
                try:
                    READ[rule](r.text)
                    out.append(('rejected', '%s by %s' % (key, rule), 'violation',
                                'the pattern %r (%s) is translated to %r, which drops the construct' % (p, why, r.text), f))
                except (Bad, Unsupported):
                    out.append((rule, key, 'undecided', why, ''))
            continue
        try:
            have = READ[rule](r.text)
        except Bad as e:
            out.append((rule, key, 'violation', 'the pattern %r is translated to %r: %s' % (p, r.text, e), f))
            continue
        except Unsupported as e:
            if construct.startswith('literal') or construct == 'text':
                out.append((rule, key, 'violation', 'the pattern %r is translated to %r: a literal character acts as %s' % (p, r.text, e), f))
            else:
                out.append((rule, key, 'undecided', str(e), ''))
            continue
        w = differ(want, have)
        if w is None:
            out.append((rule, key, 'ok', r.text, ''))
        else:
            out.append((rule, key, 'violation', 'the pattern %r is translated to %r; they differ on the text %r' % (p, r.text, w), f))
    return out


def validated(item):
    """Validation of a definition that uses the pattern."""
    p, construct = item
    key = '%s: %s' % (construct, p)
    res = [translate(f, p) for f in FUNCS.values()]
    if any(r.unknown for r in res):
        return []
    L.I.steps = 0
    st = L.state()
    with L.frame() as fr:
        try:
            root = build(L, st, simple(options=[(['--x'], dict(complete=['file', {'ignore_globs': [p]}]))]))
            L.call(st, 'completion_validator.validate_commandlines', root)
            ok = True
        except Bottom:
            ok = False
        except AnalysisBroken as e:
            return [('validated', key, 'undecided', str(e), '')]
    ex = exceptions(fr)
    if ok and ex:
        return [('validated', key, 'undecided', str(ex), '')]
    accept = not any(r.exc for r in res)
    if ok == accept:
        if not ok and any(n not in ('CrazySchemaValidationError', 'CrazyError') and not n.startswith('Crazy') for n, _ in ex):
            return [('validated', key, 'violation', 'validation of the pattern %r ends in %s' % (p, ex), ex[0][1])]
        return [('validated', key, 'ok', '', '')]
    return [('validated', key, 'violation', 'the pattern %r is %s by validation, but %s by the translations' % (
        p, 'accepted' if ok else 'rejected', 'accepted' if accept else 'rejected'), 'crazy_complete/scheme_validator.py')]


USED = [['*.o', 'a?b'], ['[abc]*', '@(x|y).z', 'p.q'], ['*~'], ['a|b', 'c']]


def used(item):
    i, shell = item
    import re
    ps = USED[i]
    out = []
    for comp in ('file', 'file_list'):
        key = '%s %s in %s' % (comp, ps, shell)
        g = generate(L, shell, simple(options=[(['--x'], dict(complete=[comp, {'ignore_globs': ps}]))]))
        if g.text is None:
            out.append(('used', key, 'undecided', g.error, ''))
            continue
        t = g.text
        want = [read_glob(p) for p in ps]
        f = 'crazy_complete/%s_complete.py' % shell
        if shell == 'bash':
            # the patterns themselves are the arguments of the helper
            from ..shellcode import parse
            words = []
            for c in parse(t, 'bash').cmds:
                w = [getattr(x, 'value', x) for x in getattr(c, 'words', [])]
                words.append(w)
            flat = t
            ok = all(("'%s'" % p in flat) or re.search(r'(?<![\w/])%s(?![\w/])' % re.escape(p), flat) for p in ps)
            out.append(('used', key, 'ok' if ok else 'violation', '' if ok else 'a pattern is missing in the script', f))
            continue
        cand = re.findall(r"(?:-i|-F)\s+(?:\\?['\"])+(\(.*?\))(?:\\?['\"])(?=[\s;)\"'\\]|$)", t)
        # the word may stand within another quoted word
        if shell == 'fish':
            for _ in range(2):
                cand = list(dict.fromkeys(cand + [re.sub(r"\\([\\'])", r'\1', c) for c in cand]))
        cand = list(dict.fromkeys(cand + [c.replace('\\\\', '\\') for c in cand] + [c.replace("'\"'\"'", "'") for c in cand]
                                  + [c.replace("'\\''", "'") for c in cand]))
        found = None
        for c in cand:
            try:
                if shell == 'fish':
                    h = read_regex(c)
                    found = found or differ(('alt', want), h) is None
                else:
                    if not (c.startswith('(') and c.endswith(')')):
                        continue
                    h = read_zsh(c[1:-1])
                    found = found or (len(h) == len(want) and all(differ(a, b) is None for a, b in zip(want, h)))
            except (Bad, Unsupported):
                continue
        if found:
            out.append(('used', key, 'ok', '', ''))
        elif found is None or not cand:
            out.append(('used', key, 'undecided', 'argument not found', ''))
        else:
            out.append(('used', key, 'violation', 'the script holds %r for the patterns %r' % (cand, ps), f))
    return out


def work(item):
    kind, x = item
    return {'t': run, 'v': validated, 'u': used}[kind](x)


def main():
    global L
    ck = Check('C28', 'Glob patterns are translated construct by construct', RULES, floor=300, assumptions=[
        'fish matches the whole name against the regular expression; zsh reads the pattern as a word of a list with its quotes removed, '
        'with extendedglob as in completion functions',
        'quotes within a character class protect its characters, except that a range between quoted characters stays a range'])
    L = Lab(ROOT)
    P = patterns(ck.tier)
    items = [('t', x) for x in P.items()]
    items += [('v', x) for x in P.items() if ck.tier == 'thorough' or not x[1].startswith(('sequence', 'literal'))]
    items += [('u', (i, s)) for i in range(len(USED)) for s in SHELLS]
    for it, res, err in pmap(work, items):
        if err:
            ck.unknown('rejected', str(it[1]), err)
        else:
            ck.merge(res)
    ck.unit('patterns', P)
    return ck.finish()
