"""Abstract strings: a hash-consed string grammar (literals, labelled holes,
concatenation, alternatives, repetition).

A node is immutable.  `taints` is the set of (label, kind) pairs of all user
text a string of this grammar may contain.
"""

import re

_table = {}
_counter = [0]


class S:
    __slots__ = ('kind', 'a', 'taints', 'uid', 'size', 'minlen', 'depth')

    def __repr__(self):
        return show(self)


def _mk(kind, a, taints, size, minlen, depth):
    key = (kind, a)
    n = _table.get(key)
    if n is None:
        n = S()
        n.kind, n.a, n.taints, n.size, n.minlen, n.depth = kind, a, taints, size, minlen, depth
        _counter[0] += 1
        n.uid = _counter[0]
        _table[key] = n
    return n


NOT = frozenset()


def lit(s):
    return _mk('lit', s, NOT, 1, len(s), 1)


EMPTY = lit('')


def hole(label, kind='raw', minlen=1, exact=None):
    """A single unknown string, named: two occurrences denote the same string."""
    return _mk('hole', (label, kind, minlen, exact), frozenset([(label, kind)]), 1,
               exact if exact is not None else minlen, 1)


def any_(taints=NOT):
    """An unknown string; different occurrences may denote different strings."""
    return _mk('any', taints, frozenset(taints), 1, 0, 1)


def cat(parts):
    out = []
    for p in parts:
        if p.kind == 'cat':
            for q in p.a:
                _push(out, q)
        else:
            _push(out, p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    size = sum(p.size for p in out)
    t = frozenset().union(*[p.taints for p in out])
    depth = 1 + max(p.depth for p in out)
    if depth > 400:
        return any_(t)
    return _mk('cat', tuple(out), t, min(size, 10**9), sum(p.minlen for p in out), depth)


def _push(out, p):
    if p.kind == 'lit':
        if p.a == '':
            return
        if out and out[-1].kind == 'lit':
            out[-1] = lit(out[-1].a + p.a)
            return
    out.append(p)


def alt(nodes, cap=400):
    s = set()
    for n in nodes:
        if n.kind == 'alt':
            s |= n.a
        else:
            s.add(n)
    if len(s) == 1:
        return next(iter(s))
    t = frozenset().union(*[p.taints for p in s]) if s else NOT
    if len(s) > cap:
        return any_(t)
    fs = frozenset(s)
    return _mk('alt', fs, t, min(sum(p.size for p in fs), 10**9), min(p.minlen for p in fs),
               1 + max(p.depth for p in fs))


def star(node):
    if node.kind == 'star':
        return node
    if node is EMPTY:
        return EMPTY
    return _mk('star', node, node.taints, node.size, 0, node.depth + 1)


def is_lit(n):
    return n.kind == 'lit'


def alts(n):
    """Top-level alternatives in a stable order."""
    if n.kind == 'alt':
        return sorted(n.a, key=lambda x: x.uid)
    return [n]


_ground = {}


def ground(n):
    """True when every occurrence denotes one fixed (if unknown) string."""
    r = _ground.get(n)
    if r is None:
        if n.kind in ('lit', 'hole'):
            r = True
        elif n.kind == 'cat':
            r = all(ground(p) for p in n.a)
        else:
            r = False
        _ground[n] = r
    return r


def parts(n):
    return n.a if n.kind == 'cat' else (n,)


def prefix(n):
    """Literal prefix of every string of n."""
    if n.kind == 'lit':
        return n.a
    if n.kind == 'cat':
        return n.a[0].a if n.a[0].kind == 'lit' else ''
    return ''


def suffix(n):
    if n.kind == 'lit':
        return n.a
    if n.kind == 'cat':
        return n.a[-1].a if n.a[-1].kind == 'lit' else ''
    return ''


def exact_len(n):
    if n.kind == 'lit':
        return len(n.a)
    if n.kind == 'hole':
        return n.a[3]
    if n.kind == 'cat':
        t = 0
        for p in n.a:
            e = exact_len(p)
            if e is None:
                return None
            t += e
        return t
    return None


def map_kind(n, f, memo=None):
    """Rebuild n with every hole/any taint (label, kind) mapped by f."""
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    if n.kind == 'lit':
        r = n
    elif n.kind == 'hole':
        l, k = f((n.a[0], n.a[1]))
        r = hole(l, k, n.a[2], n.a[3])
    elif n.kind == 'any':
        r = any_(frozenset(f(x) for x in n.a))
    elif n.kind == 'cat':
        r = cat([map_kind(p, f, memo) for p in n.a])
    elif n.kind == 'alt':
        r = alt([map_kind(p, f, memo) for p in n.a])
    else:
        r = star(map_kind(n.a, f, memo))
    memo[n] = r
    return r


def map_lit(n, f, memo=None):
    """Apply f to every literal piece (holes are kept)."""
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    if n.kind == 'lit':
        v = f(n.a)
        r = v if isinstance(v, S) else lit(v)
    elif n.kind == 'cat':
        r = cat([map_lit(p, f, memo) for p in n.a])
    elif n.kind == 'alt':
        r = alt([map_lit(p, f, memo) for p in n.a])
    elif n.kind == 'star':
        r = star(map_lit(n.a, f, memo))
    else:
        r = n
    memo[n] = r
    return r


def literals(n, memo=None):
    """All literal pieces of the grammar."""
    if memo is None:
        memo = set()
    out = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in memo:
            continue
        memo.add(x)
        if x.kind == 'lit':
            out.add(x.a)
        elif x.kind in ('cat', 'alt'):
            stack.extend(x.a)
        elif x.kind == 'star':
            stack.append(x.a)
    return out


def show(n, limit=300):
    def sh(x, d):
        if x.kind == 'lit':
            return x.a
        if x.kind == 'hole':
            return '<%s:%s>' % (x.a[0], x.a[1])
        if x.kind == 'any':
            return '<*%s>' % ','.join(sorted('%s:%s' % t for t in x.a))
        if d > 6:
            return '...'
        if x.kind == 'cat':
            return ''.join(sh(p, d + 1) for p in x.a)
        if x.kind == 'alt':
            return '{' + '|'.join(sh(p, d + 1) for p in sorted(x.a, key=lambda y: y.uid)) + '}'
        return '(' + sh(x.a, d + 1) + ')*'
    r = sh(n, 0)
    return r if len(r) <= limit else r[:limit] + '…'


# --------------------------------------------------------------------------
# Encoding: a string made of literals and word holes is handled as a Python
# string in which each hole is one fresh letter; every string operation of the
# analysed program is then computed on that string and decoded again.
# --------------------------------------------------------------------------

_FIRST = 0x4E00
_enc = {}
_dec = {}
_letters = re.compile('[\u4e00-\u9fff]')


def letter(part):
    c = _enc.get(part)
    if c is None:
        c = chr(_FIRST + len(_enc) % 20000)
        _enc[part] = c
        _dec[c] = part
    return c


def is_word(n):
    return n.kind == 'hole' and n.a[1] == 'w'


def encode(n, opaque=False):
    """Python string, or None when n has parts that are not literals or word holes."""
    out = []
    for p in parts(n):
        if p.kind == 'lit':
            out.append(p.a)
        elif opaque or is_word(p):
            out.append(letter(p))
        else:
            return None
    return ''.join(out)


def decode(s):
    if not has_letter(s):
        return lit(s)
    out = []
    cur = []
    for c in s:
        if c in _dec:
            out.append(lit(''.join(cur)))
            cur = []
            out.append(_dec[c])
        else:
            cur.append(c)
    out.append(lit(''.join(cur)))
    return cat(out)


def has_letter(s):
    return _letters.search(s) is not None


_range = re.compile(r'(\\x[0-9a-fA-F]{2}|[^\\\[\]])-(\\x[0-9a-fA-F]{2}|[^\\\[\]])')


def word_regex(pat):
    """Make character classes that contain a-z also contain the hole letters."""
    def f(m):
        lo, hi = (chr(int(x[2:], 16)) if len(x) > 1 else x for x in m.groups())
        return m[0] + '\u4e00-\u9fff' if lo <= 'a' and hi >= 'z' and hi < '\u4e00' else m[0]
    return _range.sub(f, pat)


def starts_with(n, w):
    """Possible truth values of s.startswith(w) for s in n."""
    if n.kind == 'alt':
        r = set()
        for x in n.a:
            r |= starts_with(x, w)
        return r
    if w == '':
        return {True}
    ps = parts(n)
    first = ps[0] if ps else EMPTY
    if first.kind == 'lit':
        if len(first.a) >= len(w):
            return {first.a.startswith(w)}
        if not w.startswith(first.a):
            return {False}
        if len(ps) == 1:
            return {False}
        return starts_with(cat(list(ps[1:])), w[len(first.a):])
    if first.kind == 'hole' and first.a[1] == 'w':
        return {False}
    if first.kind == 'alt':
        r = set()
        for x in first.a:
            r |= starts_with(cat([x] + list(ps[1:])), w)
        return r
    if first.kind == 'star':
        r = starts_with(cat(list(ps[1:])), w) if len(ps) > 1 else {False}
        return r | starts_with(cat([first.a, any_()]), w)
    return {True, False}


def reverse(n, memo=None):
    memo = {} if memo is None else memo
    if n in memo:
        return memo[n]
    if n.kind == 'lit':
        r = lit(n.a[::-1])
    elif n.kind == 'cat':
        r = cat([reverse(p, memo) for p in reversed(n.a)])
    elif n.kind == 'alt':
        r = alt([reverse(p, memo) for p in n.a])
    elif n.kind == 'star':
        r = star(reverse(n.a, memo))
    else:
        r = n
    memo[n] = r
    return r


def ends_with(n, w):
    return starts_with(reverse(n), w[::-1])


def lines(n, keepends):
    """Split at the newlines of the literal parts (other parts stay whole)."""
    e = encode(n, opaque=True)
    return [decode(x) for x in (e.splitlines(keepends=True) if keepends == 'keep' else
                                e.splitlines() if keepends == 'drop' else e.split('\n'))]
