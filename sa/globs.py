"""Readers of bash globs, regular expressions (PCRE) and zsh patterns, and the
comparison of the languages they describe."""


class Bad(Exception):
    """Malformed pattern."""


class Unsupported(Exception):
    """A construct these readers do not know."""


# syntax trees: ('c', chars, negated) ('cat', [..]) ('alt', [..]) ('star', x)
EPS = ('cat', [])
ANY = ('c', frozenset(), True)


def ch(c):
    return ('c', frozenset(c), False)


NEVER = ('c', frozenset(), False)


def plus(x):
    return ('cat', [x, ('star', x)])


def opt(x):
    return ('alt', [EPS, x])


EXT = '@*+?!'
POSIX = (':', '.', '=')


def read_glob(s):
    """Tree of a bash glob (extglob enabled)."""
    i = 0
    n = len(s)

    def quoted(q):
        nonlocal i
        i += 1
        out = ''
        while i < n and s[i] != q:
            if q == '"' and s[i] == '\\' and i + 1 < n:
                i += 1
            out += s[i]
            i += 1
        if i >= n:
            raise Bad('unclosed quote')
        i += 1
        return out

    def klass():
        nonlocal i
        i += 1
        neg = False
        chars = []         # (char, quoted)
        if i < n and s[i] in '!^':
            neg = True
            i += 1
        first = True
        while True:
            if i >= n:
                raise Bad('unclosed class')
            c = s[i]
            if c == ']':
                if first:
                    raise Unsupported('] at the start of a class')
                i += 1
                break
            if c == '[' and i + 1 < n and s[i + 1] in POSIX:
                raise Unsupported('named class')
            if c in '\'"':
                for x in quoted(c):
                    chars.append((x, True))
            elif c == '\\':
                if i + 1 >= n:
                    raise Bad('backslash at the end')
                chars.append((s[i + 1], True))
                i += 2
            else:
                chars.append((c, False))
                i += 1
            first = False
        out = set()
        k = 0
        while k < len(chars):
            if k + 2 < len(chars) and chars[k + 1] == ('-', False):
                a, b = chars[k][0], chars[k + 2][0]
                if a > b:
                    raise Bad('empty range')
                out |= {chr(x) for x in range(ord(a), ord(b) + 1)}
                k += 3
            else:
                out.add(chars[k][0])
                k += 1
        return ('c', frozenset(out), neg)

    def seq(stop):
        nonlocal i
        out = []
        while i < n and s[i] not in stop:
            c = s[i]
            if c in EXT and i + 1 < n and s[i + 1] == '(':
                i += 2
                alts = [seq('|)')]
                while i < n and s[i] == '|':
                    i += 1
                    alts.append(seq('|)'))
                if i >= n:
                    raise Bad('unclosed group')
                i += 1
                g = ('alt', alts)
                if c == '!':
                    raise Unsupported('negated group')
                out.append({'@': g, '*': ('star', g), '+': plus(g), '?': opt(g)}[c])
            elif c == '*':
                out.append(('star', ANY))
                i += 1
            elif c == '?':
                out.append(ANY)
                i += 1
            elif c == '[':
                out.append(klass())
            elif c in '\'"':
                out += [ch(x) for x in quoted(c)]
            elif c == '\\':
                if i + 1 >= n:
                    raise Bad('backslash at the end')
                out.append(ch(s[i + 1]))
                i += 2
            else:
                out.append(ch(c))
                i += 1
        return ('cat', out)
    return seq('')


def read_regex(s):
    """Tree of a PCRE; anchors match nothing in the middle of a text."""
    i = 0
    n = len(s)

    def escape(inside):
        nonlocal i
        i += 1
        if i >= n:
            raise Bad('backslash at the end')
        c = s[i]
        i += 1
        if c.isalnum():
            raise Unsupported('\\' + c)
        return c

    def klass():
        nonlocal i
        i += 1
        neg = False
        if i < n and s[i] == '^':
            neg = True
            i += 1
        items = []
        first = True
        while True:
            if i >= n:
                raise Bad('unclosed class')
            c = s[i]
            if c == ']' and not first:
                i += 1
                break
            if c == '[' and i + 1 < n and s[i + 1] in POSIX:
                raise Unsupported('named class')
            if c == '\\':
                items.append((escape(True), True))
            else:
                items.append((c, False))
                i += 1
            first = False
        out = set()
        k = 0
        while k < len(items):
            if k + 2 < len(items) and items[k + 1] == ('-', False):
                a, b = items[k][0], items[k + 2][0]
                if a > b:
                    raise Bad('empty range')
                out |= {chr(x) for x in range(ord(a), ord(b) + 1)}
                k += 3
            else:
                out.add(items[k][0])
                k += 1
        return ('c', frozenset(out), neg)

    def atom():
        nonlocal i
        c = s[i]
        if c == '\\':
            return ch(escape(False))
        if c == '[':
            return klass()
        if c == '(':
            i += 1
            if i < n and s[i] == '?':
                if s[i:i + 2] != '?:':
                    raise Unsupported('group')
                i += 2
            x = alt()
            if i >= n or s[i] != ')':
                raise Bad('unclosed group')
            i += 1
            return x
        i += 1
        if c == '.':
            return ANY
        if c in '^$':
            return NEVER
        if c in '*+?':
            raise Bad('nothing to repeat')
        if c == '{':
            j = s.find('}', i)
            if j > 0 and s[i:j].replace(',', '').isdigit():
                raise Unsupported('counted repetition')
        return ch(c)

    def seq():
        nonlocal i
        out = []
        while i < n and s[i] not in '|)':
            x = atom()
            while i < n and s[i] in '*+?':
                c = s[i]
                i += 1
                if i < n and s[i] in '?+':
                    raise Unsupported('lazy or possessive quantifier')
                x = {'*': ('star', x), '+': plus(x), '?': opt(x)}[c]
            if i < n and s[i] == '{':
                j = s.find('}', i)
                if j > 0 and s[i + 1:j].replace(',', '').isdigit():
                    raise Unsupported('counted repetition')
            out.append(x)
        return ('cat', out)

    def alt():
        nonlocal i
        out = [seq()]
        while i < n and s[i] == '|':
            i += 1
            out.append(seq())
        return ('alt', out)
    x = alt()
    if i < n:
        raise Bad('unbalanced )')
    return x


def read_zsh(s):
    """Trees of the zsh patterns in a list of words (extendedglob as in
    completion functions)."""
    i = 0
    n = len(s)

    def quoted(q):
        nonlocal i
        i += 1
        out = ''
        while i < n and s[i] != q:
            if q == '"' and s[i] == '\\' and i + 1 < n and s[i + 1] in '\\"$`':
                i += 1
            out += s[i]
            i += 1
        if i >= n:
            raise Bad('unclosed quote')
        i += 1
        return out

    def klass():
        nonlocal i
        i += 1
        neg = False
        if i < n and s[i] in '!^':
            neg = True
            i += 1
        items = []
        first = True
        while True:
            if i >= n:
                raise Bad('unclosed class')
            c = s[i]
            if c == ']' and not first:
                i += 1
                break
            if c == '[' and i + 1 < n and s[i + 1] in POSIX:
                raise Unsupported('named class')
            if c in '\'"':
                items += [(x, True) for x in quoted(c)]
            elif c == '\\':
                if i + 1 >= n:
                    raise Bad('backslash at the end')
                items.append((s[i + 1], True))
                i += 2
            elif c in ' \t\n':
                raise Bad('the word ends within a class')
            else:
                items.append((c, False))
                i += 1
            first = False
        out = set()
        k = 0
        while k < len(items):
            if k + 2 < len(items) and items[k + 1] == ('-', False):
                a, b = items[k][0], items[k + 2][0]
                if a > b:
                    raise Bad('empty range')
                out |= {chr(x) for x in range(ord(a), ord(b) + 1)}
                k += 3
            else:
                out.add(items[k][0])
                k += 1
        return ('c', frozenset(out), neg)

    def seq(depth):
        nonlocal i
        out = []
        while i < n:
            c = s[i]
            if c in ' \t\n':
                if depth:
                    raise Bad('the word ends within a group')
                break
            if c == ')' or (c == '|' and depth):
                if not depth:
                    raise Bad('unbalanced )')
                break
            if c == '|':
                raise Bad('alternative outside of a group')
            if c in '\'"':
                out += [ch(x) for x in quoted(c)]
                continue
            if c == '\\':
                if i + 1 >= n:
                    raise Bad('backslash at the end')
                out.append(ch(s[i + 1]))
                i += 2
                continue
            if c == '[':
                out.append(klass())
                continue
            if c == '(':
                i += 1
                if i < n and s[i] == '#':
                    raise Unsupported('globbing flag')
                alts = [seq(depth + 1)]
                while i < n and s[i] == '|':
                    i += 1
                    alts.append(seq(depth + 1))
                if i >= n:
                    raise Bad('unclosed group')
                i += 1
                out.append(('alt', alts))
                continue
            i += 1
            if c == '*':
                out.append(('star', ANY))
            elif c == '?':
                out.append(ANY)
            elif c == '#':
                if not out:
                    raise Bad('nothing to repeat')
                x = out.pop()
                if i < n and s[i] == '#':
                    i += 1
                    out.append(plus(x))
                else:
                    out.append(('star', x))
            elif c == '~' and i == 1 and i == n:
                out.append(ch(c))
            elif c in '^~<':
                raise Unsupported('operator ' + c)
            else:
                out.append(ch(c))
        return ('cat', out)
    words = []
    while i < n:
        if s[i] in ' \t\n':
            i += 1
            continue
        words.append(seq(0))
    return words


# ------------------------------------------------------------- automata

class Nfa:
    def __init__(self, tree):
        self.eps, self.edges, self.n = {}, {}, 0
        a = self.new()
        self.end = self.build(tree, a)
        self.start = self.close({a})

    def new(self):
        self.n += 1
        self.eps[self.n] = set()
        self.edges[self.n] = []
        return self.n

    def build(self, t, a):
        """Add t from state a; return its final state."""
        if t[0] == 'c':
            b = self.new()
            self.edges[a].append((t[1], t[2], b))
            return b
        if t[0] == 'cat':
            for x in t[1]:
                a = self.build(x, a)
            return a
        if t[0] == 'alt':
            b = self.new()
            for x in t[1]:
                c = self.new()
                self.eps[a].add(c)
                self.eps[self.build(x, c)].add(b)
            return b
        c = self.new()
        self.eps[a].add(c)
        d = self.build(t[1], c)
        self.eps[d].add(c)
        e = self.new()
        self.eps[c].add(e)
        return e

    def close(self, s):
        s = set(s)
        todo = list(s)
        while todo:
            for x in self.eps[todo.pop()]:
                if x not in s:
                    s.add(x)
                    todo.append(x)
        return frozenset(s)

    def step(self, s, c):
        return self.close({b for a in s for cs, neg, b in self.edges[a] if (c in cs) != neg})


def alphabet(*trees):
    out = set()
    todo = list(trees)
    while todo:
        t = todo.pop()
        if t[0] == 'c':
            out |= set(sorted(t[1])[:40])
        elif t[0] == 'star':
            todo.append(t[1])
        else:
            todo.extend(t[1])
    return out


def differ(a, b):
    """A text that only one of the languages contains, or None."""
    al = sorted(alphabet(a, b))
    for f in 'zqZ7é\u0416\u4e2d':
        if f not in al:
            al.append(f)
            break
    x, y = Nfa(a), Nfa(b)
    seen = {(x.start, y.start): ''}
    todo = [(x.start, y.start)]
    while todo:
        s, t = todo.pop(0)
        w = seen[s, t]
        if (x.end in s) != (y.end in t):
            return w
        if len(w) > 12:
            continue
        for c in al:
            p = (x.step(s, c), y.step(t, c))
            if p not in seen:
                seen[p] = w + c
                todo.append(p)
    return None
