"""C10: conditions are translated completely for every shell.

The generators are interpreted abstractly on definitions whose `when`
conditions use unknown letters as values.  Pairs of conditions that differ in
one component must give different scripts; operators and numbers are compared
at the differing token; the boolean structure of the generated condition is
parsed and its truth table compared with that of the source."""

import itertools
import re

from ..check import Check, pmap, ROOT
from ..gen import *

RULES = {
    'form-translated': 'every accepted condition form is generated without an error and changes the script',
    'component-takes-effect': 'changing one component of a condition changes the generated script',
    'operator-keeps-meaning': 'the comparison operator in the script denotes the operator of the condition',
    'number-keeps-meaning': 'the number in the script denotes the number of the condition',
    'boolean-structure': 'the generated condition combines the translated parts with the same truth table as the source',
}

a, b, c, d = (W1('when.' + x) for x in 'abcd')

OPS = ('==', '!=', '<=', '>=', '<', '>')
MEANING = {
    '==': {'==', '=', '-eq', 'eq'}, '!=': {'!=', '-ne', 'ne'}, '<=': {'<=', '-le'}, '>=': {'>=', '-ge'},
    '<': {'<', '-lt'}, '>': {'>', '-gt'},
}
FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}

# base form, {component: alternatives}
FORMS = {
    'option_is': (cat('option_is --foo -- ', a), {
        'options': [cat('option_is --bar -- ', a), cat('option_is --foo --bar -- ', a), cat('option_is -x -- ', a)],
        'values': [cat('option_is --foo -- ', b), cat('option_is --foo -- ', a, ' ', b)],
        'nocase': [cat('option_is nocase --foo -- ', a), cat('option_is NOCASE --foo -- ', a)],
        'any': [cat('option_is any --foo -- ', a), cat('option_is Any --foo -- ', a)],
    }),
    'option_is nocase any': (cat('option_is nocase any --foo -- ', a), {
        'nocase': [cat('option_is any --foo -- ', a)],
        'any': [cat('option_is nocase --foo -- ', a)],
        'values': [cat('option_is nocase any --foo -- ', b)],
    }),
    'option_is any nocase': (cat('option_is any nocase --foo -- ', a), {
        'nocase': [cat('option_is any --foo -- ', a)],
        'any': [cat('option_is nocase --foo -- ', a)],
    }),
    'option_is several values': (cat('option_is --foo --bar -- ', a, ' ', b, ' ', c), {
        'first value': [cat('option_is --foo --bar -- ', d, ' ', b, ' ', c)],
        'second value': [cat('option_is --foo --bar -- ', a, ' ', d, ' ', c)],
        'last value': [cat('option_is --foo --bar -- ', a, ' ', b, ' ', d)],
        'fewer values': [cat('option_is --foo --bar -- ', a, ' ', b)],
        'first option': [cat('option_is --baz --bar -- ', a, ' ', b, ' ', c)],
        'last option': [cat('option_is --foo --baz -- ', a, ' ', b, ' ', c)],
        'fewer options': [cat('option_is --foo -- ', a, ' ', b, ' ', c)],
        'nocase': [cat('option_is nocase --foo --bar -- ', a, ' ', b, ' ', c)],
        'any': [cat('option_is any --foo --bar -- ', a, ' ', b, ' ', c)],
    }),
    'option_match': (cat("option_match --foo -- '[", 'a-f', "]'"), {
        'options': [cat("option_match --bar -- '[", 'a-f', "]'"), cat("option_match --foo --bar -- '[", 'a-f', "]'")],
        'regex': [cat("option_match --foo -- '[", 'a-g', "]'"), "option_match --foo -- '^x$'"],
        'nocase': [cat("option_match nocase --foo -- '[", 'a-f', "]'")],
        'any': [cat("option_match any --foo -- '[", 'a-f', "]'")],
    }),
    'option_match nocase any': ("option_match nocase any --foo -- 'a.*'", {
        'nocase': ["option_match any --foo -- 'a.*'"],
        'any': ["option_match nocase --foo -- 'a.*'"],
        'regex': ["option_match nocase any --foo -- 'b.*'"],
    }),
    'has_option': ('has_option --foo', {
        'options': ['has_option --bar', 'has_option --foo --bar', 'has_option -x'],
    }),
    'has_option several options': ('has_option --foo --bar --baz', {
        'first option': ['has_option -x --bar --baz', 'has_option --bar --baz'],
        'second option': ['has_option --foo -x --baz', 'has_option --foo --baz'],
        'last option': ['has_option --foo --bar -x', 'has_option --foo --bar'],
    }),
    'positional_count': ('positional_count == 13', {
        'number': ['positional_count == 15', 'positional_count == 0'],
        'operator': ["positional_count '%s' 13" % o for o in OPS if o != '=='],
    }),
    'positional_contains': (cat('positional_contains 13 ', a), {
        'number': [cat('positional_contains 15 ', a), cat('positional_contains 1 ', a)],
        'values': [cat('positional_contains 13 ', b), cat('positional_contains 13 ', a, ' ', b)],
        'ignore case': [cat('positional_contains -i 13 ', a)],
    }),
    'positional_contains several values': (cat('positional_contains -i 13 ', a, ' ', b, ' ', c), {
        'first value': [cat('positional_contains -i 13 ', d, ' ', b, ' ', c)],
        'second value': [cat('positional_contains -i 13 ', a, ' ', d, ' ', c)],
        'last value': [cat('positional_contains -i 13 ', a, ' ', b, ' ', d)],
        'ignore case': [cat('positional_contains 13 ', a, ' ', b, ' ', c)],
        'number': [cat('positional_contains -i 14 ', a, ' ', b, ' ', c)],
    }),
    'boolean': (cat('option_is --foo -- ', a, ' && option_is --bar -- ', b), {
        'conjunction': [cat('option_is --foo -- ', a, ' || option_is --bar -- ', b)],
        'negation': [cat('! option_is --foo -- ', a, ' && option_is --bar -- ', b),
                     cat('option_is --foo -- ', a, ' && ! option_is --bar -- ', b)],
        'part': [cat('option_is --foo -- ', a), cat('option_is --bar -- ', b)],
    }),
    'mixed': (cat('has_option --foo && positional_count > 1 && option_match --bar -- x && positional_contains 1 ', a), {
        'part': [cat('has_option --foo && positional_count > 1 && option_match --bar -- x'),
                 cat('positional_count > 1 && option_match --bar -- x && positional_contains 1 ', a),
                 cat('has_option --foo && option_match --bar -- x && positional_contains 1 ', a),
                 cat('has_option --foo && positional_count > 1 && positional_contains 1 ', a)],
    }),
}

CONTEXTS = ('option', 'positional', 'sub option', 'sub positional', 'option and positional', 'plain option')


def definition(when, ctx):
    def base(prog):
        t = simple(options=[(['--foo', '-f'], dict(complete=['none'])), (['--bar'], dict(complete=['none'])),
                            (['--baz'], {}), (['-x'], dict(complete=['none']))],
                   positionals=[(i, dict(complete=['none'])) for i in (1, 2)], prog=prog)
        return t
    t = base('prog')
    if ctx.startswith('sub'):
        s = base('sub')
        t.positionals = []
        t.subs = [s]
        cmd = s
    else:
        cmd = t
    if 'plain option' in ctx:
        cmd.options.append(Tree('Option', dict(option_strings=['-w'], when=when)))
    elif 'option' in ctx:
        cmd.options.append(Tree('Option', dict(option_strings=['--with-when'], complete=['choices', ['y']], when=when)))
    if 'positional' in ctx:
        cmd.positionals[-1].attrs.update(complete=['choices', ['z']], when=when)
    return t


L = None
cache = {}
FILES = {s: 'crazy_complete/%s.py' % n for s, n in (('bash', 'bash_when'), ('fish', 'fish_conditions'), ('zsh', 'zsh_when'))}
CONFIGS = {'': {}, ' (inline conditions)': {'set_fish_inline_conditions': True}}


def gen(shell, when, ctx, cfg=''):
    key = (shell, S.show(when) if isinstance(when, S.S) else when, ctx, cfg)
    if key not in cache:
        L.I.steps = 0
        try:
            g = generate(L, shell, definition(when, ctx), config=CONFIGS[cfg])
            cache[key] = (g.text, g.value is None, g.error)
        except (AnalysisBroken, RecursionError) as e:
            cache[key] = (None, False, str(e))
    return cache[key]


def text_of(when):
    return S.show(when) if isinstance(when, S.S) else str(when)


TOKEN = re.compile(r'[-\w]+|[=!<>]=|[<>]|\S')


def diff_tokens(x, y):
    """Pairs of differing tokens when both texts have the same token count."""
    p, q = TOKEN.findall(x), TOKEN.findall(y)
    if len(p) != len(q):
        return None
    return sorted({(s, t) for s, t in zip(p, q) if s != t})


def run(item):
    form, shell, ctx, cfg = item
    base, alts = FORMS[form]
    out = []
    w = FILES[shell]
    name = '%s in %s' % (form, shell)
    t0, failed, err = gen(shell, base, ctx, cfg)
    tn, _, _ = gen(shell, None, ctx, cfg)
    if failed:
        return [('form-translated', name, 'violation', '`%s` as %s%s: %s' % (text_of(base), ctx, cfg, err), w)]
    if t0 is None or tn is None:
        return [('form-translated', name, 'undecided', err, '')]
    out.append(('form-translated', name, 'violation' if t0 == tn else 'ok',
                'the condition `%s` (as %s%s) does not change the script' % (text_of(base), ctx, cfg), w))
    for comp, variants in alts.items():
        for v in variants:
            key = '%s: %s in %s' % (form, comp, shell)
            t, failed, err = gen(shell, v, ctx, cfg)
            if failed:
                out.append(('form-translated', key, 'violation', '`%s` as %s: %s' % (text_of(v), ctx, err), w))
            elif t is None:
                out.append(('component-takes-effect', key, 'undecided', err, ''))
            elif t == t0:
                out.append(('component-takes-effect', key, 'violation', 'same script for `%s` and `%s` (as %s%s)' % (
                    text_of(base), text_of(v), ctx, cfg), w))
            else:
                out.append(('component-takes-effect', key, 'ok', '', ''))
                if comp in ('operator', 'number') and form in ('positional_count', 'positional_contains'):
                    out.append(meaning(form, comp, shell, base, v, t0, t, w, ctx))
    return [o for o in out if o]


def meaning(form, comp, shell, base, v, t0, t, w, ctx):
    pairs = diff_tokens(t0, t)
    b, x = text_of(base).replace("'", '').split(), text_of(v).replace("'", '').split()
    key = '%s: %s %s in %s' % (form, comp, x[1], shell)
    if comp == 'operator':
        rule = 'operator-keeps-meaning'
        if not pairs or len(pairs) != 1:
            return (rule, key, 'undecided', str(pairs), '')
        (p, q), = pairs
        known = {o: m for m, s in MEANING.items() for o in s}
        if p not in known or q not in known:
            return (rule, key, 'undecided', str(pairs), '')
        if (known[p], known[q]) == (b[1], x[1]) or (FLIP.get(known[p], known[p]), FLIP.get(known[q], known[q])) == (
                b[1], x[1]) and '13 %s' % p in t0:
            return (rule, key, 'ok', '', '')
        return (rule, key, 'violation', '`%s` is translated to `%s` (and `%s` to `%s`)' % (x[1], q, b[1], p), w)
    rule = 'number-keeps-meaning'
    if not pairs or len(pairs) != 1 or not all(re.fullmatch('-?[0-9]+', n) for n in pairs[0]):
        return (rule, key + ' ' + str(pairs)[:40], 'undecided', str(pairs), '')
    p, q = map(int, pairs[0])
    i = [k for k, s in enumerate(b) if s.isdigit()][0]
    m, n = int(b[i]), int(x[i])
    off = (0, -1) if shell == 'bash' and form == 'positional_contains' else (0,)
    want = {(m + o, n + o) for o in off}
    if shell == 'bash' and form == 'positional_contains':
        # bash arrays start at 0
        want = {(m - 1, n - 1)} if 'POSITIONALS[%d]' % p in t0 else want
    return (rule, key, 'ok' if (p, q) in want else 'violation',
            'numbers %d and %d become %d and %d (as %s)' % (m, n, p, q, ctx), w)


# ------------------------------------------------- boolean structure

def structures():
    """Conditions over up to four parts, as token lists (ints are parts)."""
    yield [0]
    yield ['!', 0]
    for o in ('&&', '||'):
        yield [0, o, 1]
        yield ['!', 0, o, 1]
        yield [0, o, '!', 1]
        yield ['(', 0, o, 1, ')']
        yield ['!', '(', 0, o, 1, ')']
        for p in ('&&', '||'):
            yield [0, o, 1, p, 2]
            yield ['(', 0, o, 1, ')', p, 2]
            yield [0, p, '(', 1, o, 2, ')']
            yield [0, p, '!', '(', 1, o, 2, ')']
            yield ['!', '(', 0, o, 1, ')', p, 2]
            yield ['(', 0, o, 1, ')', p, '(', 2, '&&', 3, ')']
            yield ['(', 0, o, '(', 1, p, 2, ')', ')', '&&', 3]


class Parse:
    """Shell and-or lists: && and || have the same precedence, left to right."""

    def __init__(self, tokens):
        self.t, self.i = tokens, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expr(self):
        x = self.unary()
        while self.peek() in ('&&', '||'):
            o = self.next()
            x = (o, x, self.unary())
        return x

    def unary(self):
        if self.peek() == '!':
            self.next()
            return ('!', self.unary())
        if self.peek() == '(':
            self.next()
            x = self.expr()
            if self.peek() != ')':
                raise ValueError
            self.next()
            return x
        if isinstance(self.peek(), int):
            r = {self.next()}
            while isinstance(self.peek(), int):
                r.add(self.next())
            return ('part', frozenset(r))
        raise ValueError

    def all(self):
        x = self.expr()
        if self.peek() is not None:
            raise ValueError
        return x


def evaluate(x, env):
    if x[0] == 'part':
        return any(env[i] for i in x[1])
    if x[0] == '!':
        return not evaluate(x[1], env)
    l = evaluate(x[1], env)
    r = evaluate(x[2], env)
    return (l and r) if x[0] == '&&' else (l or r)


def table(x):
    return tuple(evaluate(x, e) for e in itertools.product((False, True), repeat=4))


LEX = re.compile(r'&&|\|\||\$\(|\(\(|\)\)|[!(){}]|[\w-]+|[\u4e00-\u9fff]|.', re.S)


def skeleton_of(line, letters):
    """Operators and parts of a generated condition."""
    toks = []
    line = re.sub(r'\(\(.*?\)\)', ' ', line)
    for t in re.findall(r'&&|\|\||"\$\{[^}]*\}"|\(\(|\)\)|(?<![\w$\'{])!(?![\w=])|(?<=\s)[({](?=\s)|^[({](?=\s)|;\s*\}|'
                        r'(?<=\s)[)}](?=[\s;"&]|$)|\b(?:begin|end|not|and|or)\b|[\u4e00-\u9fff]', line):
        if t in ('begin', '(', '{'):
            toks.append('(')
        elif t in ('end', ')', '}') or t.startswith(';'):
            toks.append(')')
        elif t in ('&&', 'and'):
            toks.append('&&')
        elif t in ('||', 'or'):
            toks.append('||')
        elif t in ('!', 'not'):
            toks.append('!')
        elif t in letters:
            toks.append(letters[t])
    # cut to the part around the letters
    while toks and toks[0] in ('&&', '||', ')'):
        toks.pop(0)
    while toks and toks[-1] in ('&&', '||', '(', '!'):
        toks.pop()
    return toks


def run_bool(item):
    struct, shell, ctx, kind = item
    parts = [a, b, c, d]
    pieces = []
    for t in struct:
        if isinstance(t, int):
            if kind == 'option_is':
                pieces += [cat('option_is --foo -- ', parts[t]), ' ']
            elif kind == 'positional_contains':
                pieces += [cat('positional_contains 1 ', parts[t]), ' ']
            else:
                pieces += [cat('option_is --foo -- ', parts[t], ' ', parts[t]), ' ']
        else:
            pieces += [t, ' ']
    when = cat(*pieces[:-1])
    text = text_of(when)
    w = FILES[shell]
    key = '%s in %s' % (' '.join('ABCD'[t] if isinstance(t, int) else t for t in struct), shell)
    t, failed, err = gen(shell, when, ctx)
    if failed:
        return [('form-translated', key, 'violation', '`%s` as %s: %s' % (text, ctx, err), w)]
    if t is None:
        return [('boolean-structure', key, 'undecided', err, '')]
    letters = {S.letter(p): i for i, p in enumerate(parts)}
    used = {S.letter(parts[i]) for i in struct if isinstance(i, int)}
    want = table(Parse(list(struct)).all())
    lines = [l for l in t.split('\n') if all(u in l for u in used)]
    if not lines:
        return [('boolean-structure', key, 'undecided', 'condition not found in one line', '')]
    out = []
    for l in lines:
        i = min(l.find(u) for u in used)
        sk = skeleton_of(l, letters)
        try:
            got = table(Parse(sk).all())
        except ValueError:
            out.append(('boolean-structure', key + ' (%s)' % ctx, 'undecided', 'cannot parse: ' + l[:200], ''))
            continue
        out.append(('boolean-structure', key, 'ok' if got == want else 'violation',
                    '`%s` (as %s) becomes `%s`' % (text, ctx, l.strip()[:300]), w))
    return out


def main():
    global L
    ck = Check('C10', 'Conditions are translated completely for every shell', RULES, floor=100, assumptions=[
        '&& and || have equal precedence in `when` conditions, as in the shells',
        'values of conditions are unknown letters; special characters are the subject of C11'])
    L = Lab(ROOT)
    L.I.max_steps = 20_000_000
    items = []
    for f in FORMS:
        for s in SHELLS:
            for ctx in CONTEXTS:
                if ctx == 'option and positional' and ck.tier == 'quick':
                    continue
                for cfg in CONFIGS:
                    if cfg and (s != 'fish' or ck.tier == 'quick' and ctx != 'option'):
                        continue
                    items.append((f, s, ctx, cfg))
    for item, res, err in pmap(run, items):
        if err:
            ck.unknown('form-translated', '%s in %s (%s)' % item[:3], err)
        else:
            ck.merge(res)
    bitems = [(tuple(x), s, ctx, k) for x in structures() for s in SHELLS
              for ctx, k in (('option', 'option_is'), ('positional', 'positional_contains'), ('sub option', 'two values'))
              if ck.tier != 'quick' or ctx == 'option' or len(x) <= 3]
    for item, res, err in pmap(run_bool, bitems):
        if err:
            ck.unknown('boolean-structure', '%s in %s' % item[:2], err)
        else:
            ck.merge(res)
    ck.unit('condition forms', FORMS)
    ck.unit('generated conditions', ['%s' % (i,) for i in items + bitems])
    return ck.finish()
