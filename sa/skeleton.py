"""Relational comparison of two scripts that differ in one text of the definition.

Both scripts are split into words (also within substitutions).  The scripts have the
same skeleton if they consist of the same commands and words, with the same active
characters and expansions, and if the words differ only in the text itself.  Words that
are read as code or as formats by the commands they are given to (fish `complete -a`,
zsh `_arguments`, bash `compgen -W`, `eval` ...) are compared at that level too."""

import re

from .shellcode import Posix, Fish, Unparsed


INDENT = re.compile(r'\n +')
CLASS = re.compile(r'\[(\w)(\w)\]')


def letter(m):
    return m.group(1).lower() if m.group(1).lower() == m.group(2).lower() else m.group()


class Differ(Exception):
    """The scripts differ in more than the text."""


class Ref:
    """A recorded word with the place it was found at."""
    __slots__ = ('word', 'array', 'cmd', 'index', 'func')

    def __init__(self, word, array, func):
        self.word, self.array, self.func = word, array, func
        self.cmd = self.index = None


class P(Posix):
    def __init__(self, text, shell):
        super().__init__(text, shell)
        self.refs, self.cur = [], None

    def word(self, i, stop=Posix.STOP):
        n = len(self.refs)
        self.refs.append(None)
        j, w = super().word(i, stop)
        self.refs[n] = Ref(w, self.cur, self.func)
        return j, w

    def array(self, i):
        old = self.cur
        m = re.search(r'([A-Za-z_]\w*)\+?=$', self.t[:i])
        self.cur = m.group(1) if m else '?'
        try:
            return super().array(i)
        finally:
            self.cur = old


class F(Fish):
    def __init__(self, text):
        super().__init__(text)
        self.refs = []

    def word(self, i):
        n = len(self.refs)
        self.refs.append(None)
        j, w = super().word(i)
        self.refs[n] = Ref(w, None, self.func)
        return j, w


def read(text, shell):
    p = F(text) if shell == 'fish' else P(text, shell)
    p.parse()
    refs = [r for r in p.refs if r is not None]
    by = {(r.word.pos, r.word.raw): r for r in refs}
    for c in p.code.cmds:
        for n, w in enumerate(c.words):
            r = by.get((w.pos, w.raw))
            if r is not None:
                r.cmd, r.index = c, n
    return refs, p.code


def segments(raw, shell):
    """Items of a word: (character, quoted) or ('x', expansion)."""
    out = []
    if shell == 'fish':
        p, i, n = Fish(raw), 0, len(raw)
        while i < n:
            c = raw[i]
            if c == '\\':
                if raw[i + 1:i + 2] != '\n':
                    out.append((raw[i + 1:i + 2], True))
                i += 2
            elif c == "'":
                i += 1
                while raw[i] != "'":
                    if raw[i] == '\\' and raw[i + 1] in "\\'":
                        i += 1
                    out.append((raw[i], True))
                    i += 1
                i += 1
            elif c == '"':
                i += 1
                while raw[i] != '"':
                    if raw[i] == '\\' and raw[i + 1] in '\\"$\n':
                        i += 1
                        if raw[i] != '\n':
                            out.append((raw[i], True))
                        i += 1
                    elif raw[i] == '$':
                        j, _ = p.dollar(i, [])
                        out.append(('x', raw[i:j]))
                        i = j
                    else:
                        out.append((raw[i], True))
                        i += 1
                i += 1
            elif c == '$':
                j, _ = p.dollar(i, [])
                out.append(('x', raw[i:j]))
                i = j
            elif c == '(':
                j = p.subst(i)
                out.append(('x', raw[i:j]))
                i = j
            else:
                out.append((c, False))
                i += 1
        return out
    p, i, n = Posix(raw, shell), 0, len(raw)
    while i < n:
        c = raw[i]
        if c == '\\':
            if raw[i + 1:i + 2] != '\n':
                out.append((raw[i + 1:i + 2], True))
            i += 2
        elif c == "'":
            j = raw.index("'", i + 1)
            out += [(x, True) for x in raw[i + 1:j]]
            i = j + 1
        elif raw.startswith("$'", i):
            j = p.ansi(i)
            out += [(x, True) for x in raw[i + 2:j - 1]]
            i = j
        elif c == '"':
            i += 1
            while raw[i] != '"':
                if raw[i] == '\\':
                    if raw[i + 1] in '$`"\\':
                        out.append((raw[i + 1], True))
                    elif raw[i + 1] != '\n':
                        out += [('\\', True), (raw[i + 1], True)]
                    i += 2
                elif raw[i] == '$':
                    j = p.dollar(i, [])
                    out.append(('x', raw[i:j]) if j > i + 1 else ('$', True))
                    i = j
                elif raw[i] == '`':
                    j = p.backtick(i)
                    out.append(('x', raw[i:j]))
                    i = j
                else:
                    out.append((raw[i], True))
                    i += 1
            i += 1
        elif c == '$':
            j = p.dollar(i, [])
            out.append(('x', raw[i:j]) if j > i + 1 else ('$', False))
            i = j
        elif c == '`':
            j = p.backtick(i)
            out.append(('x', raw[i:j]))
            i = j
        elif raw.startswith(('<(', '>('), i):
            p.sub += 1
            j = p.list(i + 2, (')',)) + 1
            out.append(('x', raw[i:j]))
            i = j
        else:
            out.append((c, False))
            i += 1
    return out


ACTIVE = {'bash': set('*?[]{}|()<>&;'), 'zsh': set('*?[]{}|()<>&;^#~'), 'fish': set('*?{}[]|()<>&;')}
START = {'bash': '~#', 'zsh': '~#=', 'fish': '~#'}


def active(items, shell):
    out = ''.join(c for c, q in items if c != 'x' and q is False and c in ACTIVE[shell])
    if items and items[0][1] is False and items[0][0] in START[shell]:
        out = '^' + items[0][0] + out
    return out


def value(items):
    return ''.join('\0' if isinstance(q, str) else c for c, q in items)


class Compare:
    def __init__(self, shell, benign, text, forms):
        self.shell, self.benign, self.text = shell, benign, text
        self.forms = list(dict.fromkeys(forms))
        self.words = 0

    def match(self, a, b, forms=None):
        """b is a with the text in place of the benign text."""
        if '\n' in b:               # a text of several lines is indented with the code
            a, b = INDENT.sub('\n', a), INDENT.sub('\n', b)
        if self.benign not in a and CLASS.search(a):
            a, b = CLASS.sub(letter, a), CLASS.sub(letter, b)      # letters of both cases
        if self.benign not in a:
            return a == b
        forms = self.forms if forms is None else forms
        parts = a.split(self.benign)

        def go(n, s):
            if n == len(parts):
                return s == ''
            return any(s.startswith(f + parts[n]) and go(n + 1, s[len(f) + len(parts[n]):]) for f in forms)
        return b.startswith(parts[0]) and go(1, b[len(parts[0]):])

    def differ(self, where, a, b):
        raise Differ('%s: %s instead of %s' % (where, b, a))

    def code(self, a, b, where='script'):
        if a == b and self.benign not in a:
            return
        try:
            ra, ca = read(a, self.shell)
        except Unparsed:
            raise
        try:
            rb, cb = read(b, self.shell)
        except (Unparsed, IndexError, ValueError) as e:
            raise Differ('%s: no longer readable code: %s' % (where, e))
        for x, y in zip(ra, rb):
            self.word(x, y, ra, rb, ca, cb, where)
        if len(ra) != len(rb):
            raise Differ('%s: %d words instead of %d' % (where, len(rb), len(ra)))
        if len(ca.cmds) != len(cb.cmds):
            raise Differ('%s: %d commands instead of %d' % (where, len(cb.cmds), len(ca.cmds)))
        if [f[0] for f in ca.funcs] != [f[0] for f in cb.funcs]:
            raise Differ('%s: other functions' % where)

    def word(self, x, y, ra, rb, ca, cb, where):
        a, b = x.word.raw, y.word.raw
        if a == b and self.benign not in a:
            if (x.cmd is None) != (y.cmd is None) or x.index != y.index or x.array != y.array:
                raise Differ('%s: the word %s stands elsewhere' % (where, b))
            return
        self.words += 1
        place = self.place(x, where)
        if (x.cmd is None) != (y.cmd is None) or x.index != y.index or x.array != y.array:
            raise Differ('%s: the word %s stands elsewhere' % (place, b))
        va, vb = self.plain(a, b, place)
        ctx = self.context(x, va, ra, ca)
        if ctx is None:
            if not self.match(va, vb):
                self.differ(place, show(va), show(vb))
        else:
            getattr(self, 'as_' + ctx)(va, vb, place)

    def place(self, x, where):
        if x.cmd is not None and x.cmd.words:
            n = x.cmd.words[0].lit or x.cmd.words[0].raw
            return '%s, argument %d of %s' % (where, x.index, n)
        return '%s, array %s' % (where, x.array) if x.array else where

    def plain(self, a, b, place):
        """Compare active characters and expansions; the values of both words."""
        try:
            sa = segments(a, self.shell)
        except (IndexError, ValueError) as e:
            raise Unparsed(str(e))
        try:
            sb = segments(b, self.shell)
        except (Unparsed, IndexError, ValueError) as e:
            raise Differ('%s: the word %s is no longer readable' % (place, b))
        if active(sa, self.shell) != active(sb, self.shell):
            raise Differ('%s: active characters %r instead of %r in %s' % (place, active(sb, self.shell), active(sa, self.shell), b))
        xa = [q for c, q in sa if isinstance(q, str)]
        xb = [q for c, q in sb if isinstance(q, str)]
        if len(xa) != len(xb):
            raise Differ('%s: %d expansions instead of %d in %s' % (place, len(xb), len(xa), b))
        for p, q in zip(xa, xb):
            if p == q:
                continue
            if p[:2] == q[:2] and p[:2] in ('$(', '<(', '>(') or p[:1] == q[:1] == '(':
                continue            # their words are compared as words
            m = re.match(r'\$\{[#!]*\w+(?:\[[^\]]*\])?(?:##?|%%?|//?[#%]?|:?[-+=?]|:)', p)
            if m and q.startswith(m.group()) and p[-1] == q[-1] == '}':
                va, vb = self.plain(p[m.end():-1], q[m.end():-1], place)
                if not self.match(va, vb):
                    self.differ(place, show(va), show(vb))
                continue
            raise Differ('%s: expansion %s instead of %s' % (place, q, p))
        return value(sa), value(sb)

    # ---- contexts

    def context(self, x, v, refs, code):
        c = x.cmd
        if self.shell == 'fish':
            if c is None or not c.words:
                return None
            n = c.words[0].lit
            if n == 'complete':
                o = c.words[x.index - 1].lit
                return 'code' if o in ('-n', '-a') else None
            if n == 'set' and x.index >= 2:
                names = [w.lit for w in c.words[1:x.index] if w.lit and not w.lit.startswith('-')]
                if names and any(d.words and d.words[0].lit == 'complete' and names[0] in w.vars and
                                 (d.words[k].lit in ('-n', '-a')) for d in code.cmds for k, w in enumerate(d.words[1:])):
                    return 'code'
            return 'code' if n == 'eval' else None
        if c is None:
            if x.array and self.shell == 'zsh':
                for d in code.cmds:
                    if d.words and d.words[0].lit in SPECS and any('${%s[@]}' % x.array in w.raw for w in d.words) and d.func == x.func:
                        return SPECS[d.words[0].lit]
                    if d.words and d.words[0].lit == '_describe' and d.func == x.func and any(w.lit == x.array for w in d.words):
                        return 'item'
            return None
        n = c.words[0].lit
        if n == 'eval':
            return 'code'
        if self.shell == 'bash':
            return 'code' if n == 'compgen' and c.words[x.index - 1].lit == '-W' else None
        if n == '_arguments':
            return None if (x.word.raw.startswith('-')) else 'spec'
        if n == '_values':
            k, first = 1, None
            while k < len(c.words):
                w = c.words[k].lit
                if w in ('-s', '-S', '-O'):
                    k += 2
                elif w in ('-w', '-C'):
                    k += 1
                else:
                    break
            return 'vspec' if x.index > k else None
        if n == '_alternative':
            return None if x.word.raw.startswith('-') else 'aspec'
        return None

    def as_code(self, a, b, place):
        self.code(a, b, place)

    def as_item(self, a, b, place):
        """item:description of _describe"""
        fa, fb = fields(a, ':', 2), fields(b, ':', 2)
        if len(fa) != len(fb):
            raise Differ('%s: %s splits into other parts than %s' % (place, show(b), show(a)))
        for n, (p, q) in enumerate(zip(fa, fb)):
            if not self.match(p.replace('\\:', ':'), q.replace('\\:', ':'), [self.text]):
                self.differ(place, show(p), show(q))

    def as_aspec(self, a, b, place):
        fa, fb = fields(a, ':', 3), fields(b, ':', 3)
        self.fields(fa, fb, place)

    def as_spec(self, a, b, place):
        ma = re.match(r'!?(?:\([^)]*\))?\*?[^\[:]*', a)
        mb = re.match(r'!?(?:\([^)]*\))?\*?[^\[:]*', b)
        if not self.match(ma.group(), mb.group()):
            self.differ(place, show(ma.group()), show(mb.group()))
        self.rest(a[ma.end():], b[mb.end():], place)

    def as_vspec(self, a, b, place):
        ma = re.match(r'(?:\([^)]*\))?\*?((?:[^\\\[:]|\\.)*)', a, re.S)
        mb = re.match(r'(?:\([^)]*\))?\*?((?:[^\\\[:]|\\.)*)', b, re.S)
        un = lambda s: re.sub(r'\\([:\[\]\\])', r'\1', s)
        if not self.match(un(ma.group()), un(mb.group())):
            self.differ(place, show(ma.group()), show(mb.group()))
        self.rest(a[ma.end():], b[mb.end():], place, 2)

    def rest(self, a, b, place, parts=3):
        if a.startswith('['):
            if not b.startswith('['):
                raise Differ('%s: no description in %s' % (place, show(b)))
            fa, fb = fields(a[1:], ']', 2), fields(b[1:], ']', 2)
            if len(fa) < 2:
                raise Unparsed('description')
            if len(fb) < 2:
                raise Differ('%s: description without end: %s' % (place, show(b)))
            un = lambda s: re.sub(r'\\([:\[\]])', r'\1', s)
            if not self.match(un(fa[0]), un(fb[0]), [self.text]):
                self.differ(place, show(fa[0]), show(fb[0]))
            a, b = fa[1], fb[1]
        if not a.startswith(':') or not b.startswith(':'):
            if a != b:
                raise Differ('%s: %s instead of %s' % (place, show(b), show(a)))
            return
        if a.startswith('::') and b.startswith('::'):
            a, b = a[1:], b[1:]
        self.fields([''] + fields(a[1:], ':', parts), [''] + fields(b[1:], ':', parts), place)

    def fields(self, fa, fb, place):
        if len(fa) != len(fb):
            raise Differ('%s: splits into %d parts instead of %d: %s' % (place, len(fb), len(fa), show(':'.join(fb))))
        un = lambda s: s.replace('\\:', ':')
        for p, q in zip(fa[:2], fb[:2]):
            if not self.match(un(p), un(q), [self.text]):
                self.differ(place, show(p), show(q))
        for p, q in zip(fa[2:3], fb[2:3]):
            self.action(un(p), un(q), place)
        for p, q in zip(fa[3:], fb[3:]):
            if p != q:
                self.differ(place, show(p), show(q))

    def action(self, a, b, place):
        place += ', action'
        if a == b and self.benign not in a:
            return
        for o, c in (('((', '))'), ('(', ')'), ('{', '}')):
            if a.startswith(o) and a.endswith(c):
                if not (b.startswith(o) and b.endswith(c)):
                    raise Differ('%s: %s instead of %s' % (place, show(b), show(a)))
                x, y = a[len(o):-len(c)], b[len(o):-len(c)]
                if o == '{':
                    return self.code(x, y, place)
                return self.code('x=(%s)' % x, 'x=(%s)' % y, place) if o == '(' else self.code('x=(%s)\n_describe x x' % x, 'x=(%s)\n_describe x x' % y, place)
        self.code(a, b, place)


SPECS = {'_arguments': 'spec', '_values': 'vspec', '_alternative': 'aspec'}


def fields(t, sep, limit):
    out, cur, i = [], '', 0
    while i < len(t):
        if t[i] == '\\' and i + 1 < len(t):
            cur += t[i:i + 2]
            i += 2
        elif t[i] == sep and len(out) < limit - 1:
            out.append(cur)
            cur = ''
            i += 1
        else:
            cur += t[i]
            i += 1
    return out + [cur]


def show(s):
    return repr(s if len(s) < 120 else s[:120] + '...')
