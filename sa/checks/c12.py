"""C12: the quoting and escaping functions are correct for every string.

The functions are interpreted on texts made of every special character (alone, in
pairs, in sequences of the characters that interact) among symbolic words, and their
results are read back with the word syntax of bash, zsh and fish."""

import itertools
import re

from ..check import Check, pmap, ROOT
from ..lab import *
from .. import strings as S
from ..defs import W1
from ..words import read, posix, fish, fish_double, Bad

RULES = {
    'quote': 'bash, zsh and fish read the quoted text back as exactly one word, the original text',
    'join': 'bash, zsh and fish read the joined arguments back as exactly those words',
    'bare': 'text that is left without quotes is read as itself by bash, zsh and fish',
    'colon': 'escape_colon puts a backslash before every colon and changes nothing else',
    'brackets': 'escape_square_brackets puts a backslash before every bracket and changes nothing else',
    'quoted-colon': 'after escape_colon_in_quoted_string the shell reads the same words with a backslash before every colon',
    'identifier': 'make_identifier returns letters, digits and underscores only, not starting with a digit, keeping all letters and digits',
    'fish-command': 'fish reads the options of a `complete` command back as the given texts',
    'fish-condition': 'fish reads the arguments of a condition back as the given texts',
    'zsh-spec': 'zsh reads the parts of an option or positional spec back as the given texts',
}
L = None
A, B, C = (S.encode(W1(x)) for x in 'ABC')
PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
OTHER = ' \t\n\r\x01\x1b\x7f\u00e9\u2028\U0001d11e\u00a0'
HARD = '\'"\\$`'


def texts(tier):
    out = {}

    def add(kind, *ss):
        for s in ss:
            out.setdefault(s, kind)
    add('empty', '')
    add('word', A, 'abc', '12', '1' + A, A + '1', 'a-b', '--long-option', '-o', '-1', '_1', '__', '-', '--', '%self', '%1', '=ls', '~root', '~+', 'a=b',
        '-a:b', '1', '0x', '-1-2', 'a--b__c', '/usr/bin', 'a,b', 'no such', 'é1', '1é')
    for c in PUNCT + OTHER:
        add('character', c, c + A, A + c, A + c + B, A + c + c + B, c + c)
    seqs = HARD + ':[] '
    for c, d in itertools.product(PUNCT + ' \n', repeat=2):
        add('pair', c + d, A + c + d)
        if tier == 'thorough':
            add('pair', A + c + B + d + C, A + c + d + B, c + A + d)
    for c, d in itertools.product(HARD + ':[]{}()!~=#*? \n', repeat=2):
        add('pair', A + c + B + d + C, c + A + d)
    for n in (2, 3):
        for x in itertools.product(seqs, repeat=n):
            add('sequence', ''.join(x))
    for x in itertools.product(HARD, repeat=3):
        add('sequence', A + ''.join(x) + B)
    for n in (4, 5) if tier == 'thorough' else (4,):
        for x in itertools.product(HARD + (A if tier == 'thorough' else ''), repeat=n):
            add('sequence', ''.join(x))
    return out


def result(func, *args, **kw):
    """Text, True/False or an error."""
    L.I.steps = 0
    st = L.state()
    with L.frame() as fr:
        try:
            f = func(st) if callable(func) else L.call(st, func, *[L.val(st, a) for a in args], **{k: L.val(st, v) for k, v in kw.items()})
        except Bottom:
            f = BOT
        except AnalysisBroken as e:
            return None, str(e)
    ex = [L.p.where(n) for v, s, n, *_ in fr.excs() if n is not None and getattr(n, 'mod', '') != '<driver>']
    if len(ex) != len(list(fr.excs())) and not ex:
        return None, 'not callable this way'
    if ex:
        return None, ('exc', ex[0])
    v = list(f)
    if len(v) == 1 and v[0][0] == 's':
        t = S.encode(v[0][1])
        if t is not None:
            return t, None
    if len(v) == 1 and v[0][0] == 'c':
        return v[0][2], None
    return None, 'result not derived'


def colon(s):
    return s.replace(':', '\\:')


def unambiguous(s):
    """No backslash stands before a character that the format escapes, nor at the end."""
    return not re.search(r'\\([:\[\]\\]|$)', s)


def kind_key(kind, s):
    return '%s: %s' % (kind, show(s))


def show(s):
    for x, n in ((A, 'A'), (B, 'B'), (C, 'C')):
        s = s.replace(x, n)
    return repr(s)


def verdict(out, rule, key, got, err, f, judge, s):
    if err is not None:
        if isinstance(err, tuple):
            out.append((rule, key, 'violation', 'the text %s ends in an exception' % show(s), err[1] or f))
        else:
            out.append((rule, key, 'undecided', err, ''))
        return
    try:
        why = judge(got)
    except Bad as e:
        why = str(e)
    out.append((rule, key, 'violation' if why else 'ok', 'the text %s becomes %s: %s' % (show(s), show(str(got)), why) if why else '', f))


def same(words, want):
    if words != want:
        return 'read back as %s' % ', '.join(show(w) for w in words) if words else 'read back as no word'


def run(item):
    func, chunk = item
    out = []
    for s, kind in chunk:
        FUNCS[func](out, s, kind_key(kind, s))
    return out


def has(func):
    try:
        L.sym(func)
        return True
    except Exception:
        return False


def quote(out, s, key):
    f = L.where_of('shell.quote')
    t, err = result('shell.quote', s)
    for sh in ('bash', 'zsh', 'fish'):
        verdict(out, 'quote', '%s in %s' % (key, sh), t, err, f, lambda t: same(read(t, sh), [s]), s)
    t, err = result('shell.quote', s, False)
    verdict(out, 'quote', '%s, empty text unquoted' % key, t, err, f, lambda t: (t != '' and 'not empty') if s == '' else same(read(t, 'bash'), [s]), s)


def bare(out, s, key):
    f = L.where_of('shell.needs_quote')
    b, err = result('shell.needs_quote', s)
    for sh in ('bash', 'zsh', 'fish'):
        verdict(out, 'bare', '%s in %s' % (key, sh), b, err, f, lambda b: None if b else same(read(s, sh), [s]), s)


def join(out, s, key):
    f = L.where_of('shell.join_quoted')
    for args in ([s], [A, s], [s, A, s, ''], []) if len(s) < 3 else ([s, s],):
        t, err = result('shell.join_quoted', args)
        for sh in ('bash', 'zsh', 'fish'):
            verdict(out, 'join', '%s, %d arguments in %s' % (key, len(args), sh), t, err, f, lambda t: same(read(t, sh), args), s)
    if len(s) < 3:
        t, err = result('shell.join_quoted', [s, A], ' \\\n ')
        verdict(out, 'join', '%s, on several lines' % key, t, err, f, lambda t: same(read(t, 'bash'), [s, A]), s)


def escapes(out, s, key):
    for rule, func, want in (('colon', 'zsh_utils.escape_colon', colon(s)),
                             ('brackets', 'zsh_utils.escape_square_brackets', s.replace('[', '\\[').replace(']', '\\]'))):
        if has(func):
            t, err = result(func, s)
            verdict(out, rule, key, t, err, L.where_of(func), lambda t: None if t == want else 'instead of %s' % show(want), s)


def quoted_colon(out, s, key):
    func = 'zsh_utils.escape_colon_in_quoted_string'
    if not has(func):
        return
    f = L.where_of(func)
    forms = ['"%s"' % re.sub(r'(["\\$`])', r'\\\1', s), "'%s'" % s.replace("'", "'\\''") if "'" not in s else "'%s'" % s.replace("'", "'\"'\"'")]
    if s and not re.search(r'[^\w:./,=+-]', s):
        forms.append(s)
    for n, q in enumerate(dict.fromkeys(forms)):
        try:
            if posix(q, 'zsh') != [s]:
                continue
        except Bad:
            continue
        for pre, post in (('', ''),) if len(s) > 2 else (('', ''), ('a:', ''), ('"b:":', ":'c:'")):
            try:
                want = [colon(w) for w in posix(pre + q + post, 'zsh')]
            except Bad:
                continue
            t, err = result(func, pre + q + post)
            verdict(out, 'quoted-colon', '%s as %s' % (key, show(pre + q + post)), t, err, f, lambda t: same(posix(t, 'zsh'), want), pre + q + post)


def identifier(out, s, key):
    f = L.where_of('shell.make_identifier')
    t, err = result('shell.make_identifier', s)

    def judge(t):
        u = re.sub('[\u4e00-\u9fff]', 'w', t)
        if not re.fullmatch('[A-Za-z0-9_]*', u, re.A):
            return 'holds other characters than letters, digits and underscores'
        if u[:1].isdigit():
            return 'starts with a digit'
        if re.sub('[^A-Za-z0-9\u4e00-\u9fff]', '', s) != t.replace('_', ''):
            return 'letters or digits were changed'
    verdict(out, 'identifier', key, t, err, f, judge, s)


def fish_command(out, s, key):
    f = L.where_of('fish_utils.FishCompleteCommand')
    texts_ = dict(command='-c', description='-d', condition='-n', arguments='-a', short='-s', long='-l', old='-o')
    for raw in (False, True):
        for what in ('command', 'description', 'condition', 'arguments', 'short', 'long', 'old'):
            if raw and len(s) > 1:
                continue
            if what in ('short', 'long', 'old') and (s.startswith('-') or not s or (what == 'short' and len(s) != 1)):
                continue
            if len(s) > 3 and what not in ('description', 'arguments'):
                continue

            def go(st):
                o = L.call(st, 'fish_utils.FishCompleteCommand')
                if what == 'condition':
                    L.meth(st, o, 'add_condition', L.val(st, s), const(raw))
                elif what in ('short', 'long', 'old'):
                    dash = '-' if what != 'long' else '--'
                    L.meth(st, o, 'add_%s_options' % what, L.val(st, [dash + s]), const(raw))
                else:
                    L.meth(st, o, 'set_' + what, L.val(st, s), const(raw))
                return L.meth(st, o, 'get')
            t, err = result(go)
            if raw:
                verdict(out, 'fish-command', '%s, raw %s' % (key, what), t, err, f,
                        lambda t: None if t == 'complete %s %s' % (texts_[what], s) else 'text that is shell code was changed', s)
            else:
                verdict(out, 'fish-command', '%s as %s' % (key, what), t, err, f, lambda t: same(read(t, 'fish'), ['complete', texts_[what], s]), s)


def fish_condition(out, s, key):
    func = 'fish_conditions.make_condition_command'
    if not has(func):
        return
    for args in ([s], ['-x', s, A]) if len(s) < 3 else ([s],):
        t, err = result(func, 'fun', args)

        def judge(t):
            u, end = fish_double(t + '"', 0)
            if end != len(t) + 1:
                return 'ends the double quotes it stands in'
            return same(read(u, 'fish'), ['fun'] + args)
        verdict(out, 'fish-condition', '%s, %d arguments' % (key, len(args)), t, err, L.where_of(func), judge, s)


class Spec:
    """Spec of _arguments, after quote removal."""

    def __init__(self, t):
        self.hidden = t.startswith('!')
        t = t[self.hidden:]
        self.excludes = None
        if t.startswith('('):
            i = t.find(')')
            if i < 0:
                raise Bad('exclusion list without end')
            self.excludes, t = t[1:i], t[i + 1:]
        self.repeatable = t.startswith('*')
        t = t[self.repeatable:]
        m = re.match(r'[^\[:]*', t)
        self.options, t = m.group(), t[m.end():]
        self.description = None
        if t.startswith('['):
            self.description, t = self.field(t[1:], ']')
            if t is None:
                raise Bad('description without end')
            self.description = re.sub(r'\\([\[\]:])', r'\1', self.description)
        self.message = self.action = None
        self.rest = t
        if t:
            if not t.startswith(':'):
                raise Bad('text after the description')
            self.message, t = self.field(t[1:], ':')
            self.message = self.message.replace('\\:', ':')
            if t is not None:
                a, more = self.field(t, ':')
                if more is not None:
                    raise Bad('the action holds an unescaped colon')
                self.action = a.replace('\\:', ':')

    @staticmethod
    def field(t, end):
        i = 0
        while i < len(t):
            if t[i] == '\\':
                i += 2
                continue
            if t[i] == end:
                return t[:i], t[i + 1:]
            i += 1
        return t, None


def zsh_spec(out, s, key):
    if not unambiguous(s) or not s:
        return
    f = L.where_of('zsh_utils.make_option_spec')
    func = 'zsh_utils.make_option_spec'
    runs = [('description', dict(description=s)), ('description', dict(description=s, complete=True, metavar='M', action='_files')),
            ('metavar', dict(description='D', complete=True, metavar=s, action='_files')),
            ('action', dict(description='D', complete=True, metavar='M', action='"%s"' % re.sub(r'(["\\$`])', r'\\\1', s)))]
    if '\x00' in s or '\\\n' in s:
        return
    for what, kw in runs:
        t, err = result(func, ['--opt'], **kw)

        def judge(t):
            w = posix(t, 'zsh', braces=True)
            if len(w) != 1:
                return 'read as %d words' % len(w)
            sp = Spec(w[0])
            if sp.options.rstrip('+=-') != '--opt':
                return 'the option reads as %s' % show(sp.options)
            if sp.description != kw['description']:
                return 'the description reads as %s' % show(str(sp.description))
            if 'metavar' in kw and sp.message != kw['metavar']:
                return 'the message reads as %s' % show(str(sp.message))
            if what == 'action' and sp.action != s or what == 'metavar' and sp.action != '_files':
                return 'the action reads as %s' % show(str(sp.action))
            if 'complete' not in kw and sp.rest:
                return 'an argument without completion'
        verdict(out, 'zsh-spec', '%s as %s%s' % (key, what, ' with argument' if 'complete' in kw else ''), t, err, f, judge, s)
    func = 'zsh_utils.make_positional_spec'
    f = L.where_of(func)
    for rep in (False, True):
        for what, desc, action in (('description', s, '_files'), ('action', 'D', '"%s"' % re.sub(r'(["\\$`])', r'\\\1', s))):
            t, err = result(func, 2, rep, desc, action)

            def judge(t):
                w = posix(t, 'zsh', braces=True)
                if len(w) != 1:
                    return 'read as %d words' % len(w)
                n, _, rest = w[0].partition(':')
                if n != ('*' if rep else '2'):
                    return 'the number reads as %s' % show(n)
                m, rest = Spec.field(rest, ':')
                if m.replace('\\:', ':') != desc:
                    return 'the description reads as %s' % show(m)
                a, more = Spec.field(rest or '', ':')
                if more is not None or a.replace('\\:', ':') != (s if what == 'action' else action):
                    return 'the action reads as %s' % show(rest or '')
            verdict(out, 'zsh-spec', '%s as positional %s%s' % (key, what, ', repeatable' if rep else ''), t, err, f, judge, s)


FUNCS = dict(quote=quote, bare=bare, join=join, escapes=escapes, quoted_colon=quoted_colon, identifier=identifier,
             fish_command=fish_command, fish_condition=fish_condition, zsh_spec=zsh_spec)


def main():
    global L
    ck = Check('C12', 'Quoting and escaping functions are correct for every string', RULES, floor=2000, assumptions=[
        'the functions work character by character: characters that do not occur in the texts analysed behave like those that do, and longer '
        'sequences like the sequences of up to four characters that interact',
        'zsh formats know no escape for a backslash itself: texts with a backslash right before a character that the format escapes are not judged '
        'in specs'])
    L = Lab(ROOT)
    T = sorted(texts(ck.tier).items())
    items = []
    for f in FUNCS:
        for i in range(0, len(T), 120):
            items.append((f, T[i:i + 120]))
    for it, res, err in pmap(run, items):
        if err:
            ck.unknown('quote', '%s %s' % (it[0], it[1][0][0]), err)
        else:
            ck.merge(res)
    ck.unit('texts', T)
    ck.unit('functions', FUNCS)
    return ck.finish()
