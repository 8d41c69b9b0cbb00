"""A small parser for bash, zsh and fish code: which commands are called,
which names are assigned, declared local or defined, and where.

The parser covers what generated scripts consist of; anything it cannot make
sense of raises `Unparsed`, which the checks count as undecided."""

import re


class Unparsed(Exception):
    pass


class Word:
    """A shell word: source text, literal value (None if it has expansions) and
    the commands of its command substitutions."""
    __slots__ = ('raw', 'lit', 'pos', 'quoted', 'vars')

    def __init__(self, raw, lit, pos, quoted, vars=()):
        self.raw, self.lit, self.pos, self.quoted, self.vars = raw, lit, pos, quoted, tuple(vars)

    def __repr__(self):
        return 'W(%r)' % self.raw


class Cmd:
    """A simple command."""
    __slots__ = ('words', 'assigns', 'func', 'sub', 'pos', 'line', 'path')

    def __init__(self, words, assigns, func, sub, pos, line, path=()):
        self.words, self.assigns, self.func, self.sub, self.pos, self.line = words, assigns, func, sub, pos, line
        self.path = path

    @property
    def name(self):
        return self.words[0].lit if self.words and not self.words[0].quoted else None

    def __repr__(self):
        return 'Cmd(%s)' % ' '.join([a + '=' for a in self.assigns] + [w.raw for w in self.words])


class Code:
    """Result: commands, function definitions, and assignments."""

    def __init__(self, text):
        self.text = text
        self.cmds = []          # Cmd
        self.funcs = []         # (name, line, enclosing function or None)
        self.sets = []          # (name, func, sub, line, how)
        self.locals = {}        # func -> {name: line}
        self.namerefs = {}      # func -> {name: positional parameter number}
        self.dynamic = []       # commands whose name is not literal

    def line(self, pos):
        return self.text.count('\n', 0, pos) + 1


NAME = re.compile(r'[A-Za-z_]\w*')
ASSIGN = re.compile(r'([A-Za-z_]\w*)(\[[^\]\n]*(?:\[[^\]\n]*\][^\]\n]*)*\])?(\+?=)')
ARITH_SET = re.compile(r'(?<![\w$#}])(?:(?:\+\+|--)\s*([A-Za-z_]\w*)|([A-Za-z_]\w*)\s*(?:\+\+|--)|'
                       r'([A-Za-z_]\w*)\s*(?:=(?!=)|\+=|-=|\*=|/=|%=|<<=|>>=|&=|\|=|\^=))')
RESERVED_NEXT = {'then', 'do', 'else', 'elif', 'if', 'while', 'until', '!', 'time', '{'}
DECL = {'local', 'declare', 'typeset', 'readonly', 'export', 'integer', 'float', 'private'}


class Posix:
    """bash and zsh."""

    def __init__(self, text, shell):
        self.t, self.shell = text, shell
        self.code = Code(text)
        self.func = None
        self.sub = 0
        self.heredocs = []

    # ---- characters

    def err(self, i, msg):
        raise Unparsed('line %d: %s: %r' % (self.code.line(i), msg, self.t[i:i + 30]))

    def blank(self, i):
        t = self.t
        while i < len(t):
            if t[i] in ' \t':
                i += 1
            elif t.startswith('\\\n', i):
                i += 2
            elif t[i] == '#' and (i == 0 or t[i - 1] in ' \t\n;(&|'):
                while i < len(t) and t[i] != '\n':
                    i += 1
            else:
                break
        return i

    def blanks(self, i):
        t = self.t
        while True:
            j = self.blank(i)
            if j < len(t) and t[j] == '\n':
                j += 1
            if j == i:
                return i
            i = j

    # ---- quoting

    def single(self, i):
        j = self.t.find("'", i + 1)
        if j < 0:
            self.err(i, 'unterminated quote')
        return j + 1

    def ansi(self, i):
        t = self.t
        j = i + 2
        while j < len(t) and t[j] != "'":
            j += 2 if t[j] == '\\' else 1
        if j >= len(t):
            self.err(i, "unterminated $'")
        return j + 1

    def double(self, i, vars):
        t = self.t
        j = i + 1
        simple = True
        while j < len(t) and t[j] != '"':
            if t[j] == '\\':
                j += 2
            elif t[j] == '$':
                k = self.dollar(j, vars)
                simple = simple and k == j + 1
                j = k
            elif t[j] == '`':
                j = self.backtick(j)
                simple = False
            else:
                j += 1
        if j >= len(t):
            self.err(i, 'unterminated double quote')
        return j + 1, simple

    def backtick(self, i):
        j = i + 1
        while j < len(self.t) and self.t[j] != '`':
            j += 2 if self.t[j] == '\\' else 1
        if j >= len(self.t):
            self.err(i, 'unterminated backtick')
        return j + 1

    def dollar(self, i, vars):
        """Position after the expansion at i ('$...')."""
        t = self.t
        n = t[i + 1:i + 2]
        if t.startswith('$((', i):
            return self.arith(i + 1)
        if n == '(':
            self.sub += 1
            j = self.list(i + 2, (')',))
            self.sub -= 1
            if not t.startswith(')', j):
                self.err(i, 'unterminated substitution')
            return j + 1
        if n == '{':
            return self.brace(i + 1, vars)
        m = NAME.match(t, i + 1)
        if m:
            vars.append(m.group())
            return m.end()
        if n and n in '0123456789@*#?$!-_+':
            if n == '+':
                m = NAME.match(t, i + 2)
                return m.end() if m else i + 1
            return i + 2
        return i + 1

    def brace(self, i, vars):
        t = self.t
        m = re.compile(r'\{[#!^+=(]*([A-Za-z_]\w*)').match(t, i)
        if m:
            vars.append(m.group(1))
            a = re.compile(r':?=').match(t, m.end())
            if a and t[i + 1] != '(' and t[i + 1] != '=':
                self.code.sets.append((m.group(1), self.func, self.sub, self.code.line(i), '${=}'))
        j = i + 1
        while j < len(t):
            c = t[j]
            if c == '}':
                return j + 1
            if c == '\\':
                j += 2
            elif c == "'":
                # inside "..." single quotes are literal; only skip closed ones on the line
                k = t.find("'", j + 1)
                b = t.find('}', j)
                j = k + 1 if 0 <= k and (b < 0 or k < b or '\n' not in t[j:k]) and '"' not in t[j:k] else j + 1
            elif c == '"':
                j, _ = self.double(j, vars)
            elif c == '$':
                j = self.dollar(j, vars)
            elif c == '`':
                j = self.backtick(j)
            elif c == '{':
                j = self.brace(j, [])
            else:
                j += 1
        self.err(i, 'unterminated ${')

    def arith(self, i):
        """i at '((' (from '$((' or '(('): position after the closing '))'."""
        t = self.t
        depth = 0
        j = i
        out = []
        while j < len(t):
            c = t[j]
            if c == '(':
                depth += 1
                j += 1
            elif c == ')':
                depth -= 1
                j += 1
                if depth == 0:
                    break
            elif c == '$':
                k = self.dollar(j, [])
                out.append(' 0 ' if t[j + 1:j + 2] in ('{', '(') else t[j:k])
                j = k
                continue
            elif c == '"':
                j, _ = self.double(j, [])
                continue
            elif c == "'":
                j = self.single(j)
                continue
            else:
                j += 1
            out.append(c)
        else:
            self.err(i, 'unterminated ((')
        for m in ARITH_SET.finditer(''.join(out)):
            self.code.sets.append((next(g for g in m.groups() if g), self.func, self.sub, self.code.line(i), '(('))
        return j

    # ---- words

    STOP = ' \t\n;&|<>()'

    def word(self, i, stop=STOP):
        t = self.t
        s = i
        lit = ''
        plain = True
        quoted = False
        vars = []
        while i < len(t):
            c = t[i]
            if c == '\\':
                if t.startswith('\\\n', i):
                    i += 2
                    continue
                lit += t[i + 1:i + 2]
                quoted = True
                i += 2
            elif c == "'":
                j = self.single(i)
                lit += t[i + 1:j - 1]
                quoted = True
                i = j
            elif c == '"':
                j, ok = self.double(i, vars)
                quoted = True
                plain = plain and ok
                lit += re.sub(r'\\([$`"\\])', r'\1', t[i + 1:j - 1])
                i = j
            elif t.startswith("$'", i):
                j = self.ansi(i)
                lit += t[i + 2:j - 1]
                quoted = True
                i = j
            elif t.startswith('$"', i):
                i += 1
            elif c == '$':
                j = self.dollar(i, vars)
                if j == i + 1:
                    lit += '$'
                else:
                    plain = False
                i = j
            elif c == '`':
                i = self.backtick(i)
                plain = False
            elif t.startswith('<(', i) or t.startswith('>(', i):
                if '<' in stop and i == s or '<' not in stop:
                    self.sub += 1
                    j = self.list(i + 2, (')',))
                    self.sub -= 1
                    if not t.startswith(')', j):
                        self.err(i, 'unterminated process substitution')
                    i = j + 1
                    plain = False
                else:
                    break
            elif c == '(' and i > s and t[i - 1] in '@?*+!=' and self.extglob(s, i):
                i = self.group(i, vars)
                lit += '(..)'
            elif c == '(' and self.shell == 'zsh' and i > s and t[i - 1] not in ' \t\n' and '(' in stop and self.zglob(s, i):
                i = self.group(i, vars)
            elif c in stop:
                break
            else:
                lit += c
                i += 1
        return i, Word(t[s:i], lit if plain else None, s, quoted, vars)

    def extglob(self, s, i):
        return self.t[i - 1] != '=' or False

    def zglob(self, s, i):
        return False

    def group(self, i, vars):
        """A parenthesised pattern."""
        t = self.t
        j = i + 1
        while j < len(t):
            c = t[j]
            if c == ')':
                return j + 1
            if c == '\\':
                j += 2
            elif c == '(':
                j = self.group(j, vars)
            elif c == "'":
                j = self.single(j)
            elif c == '"':
                j, _ = self.double(j, vars)
            elif c == '$':
                j = self.dollar(j, vars)
            else:
                j += 1
        self.err(i, 'unterminated (')

    def array(self, i):
        """i at '(' of an array value: position after ')'."""
        t = self.t
        i += 1
        while True:
            i = self.blanks(i)
            if i >= len(t):
                self.err(i, 'unterminated array')
            if t[i] == ')':
                return i + 1
            if t[i] in ';&|<>' and not t.startswith('<(', i):
                self.err(i, 'array')
            if t[i] == '(':
                i = self.group(i, [])
                continue
            j, _ = self.word(i)
            if j == i:
                self.err(i, 'array')
            i = j

    # ---- commands

    def list(self, i, ends):
        """Parse commands until one of the terminators `ends` stands in command
        position (or the end of the text); returns its position."""
        t = self.t
        while True:
            i = self.blanks(i)
            if i >= len(t):
                if '' in ends:
                    return i
                self.err(i, 'end of text, expected ' + '/'.join(ends))
            c = t[i]
            if c == ')' and ')' in ends:
                return i
            if any(t.startswith(x, i) for x in (';;', ';&', ';|')) and ';;' in ends:
                return i
            if c in ';&|':
                if t[i:i + 2] in ('&&', '||', '|&'):
                    i += 2
                else:
                    i += 1
                continue
            m = re.compile(r'[A-Za-z{}!]+(?=[\s;&|()<>]|$)').match(t, i)
            if m and m.group() in ends:
                return i
            i = self.command(i)

    def keyword(self, i, *kw):
        for k in kw:
            if self.t.startswith(k, i):
                return i + len(k)
        self.err(i, 'expected ' + kw[0])

    def command(self, i):
        t = self.t
        if t.startswith('((', i):
            try:
                return self.redirs(self.arith(i))
            except Unparsed:
                pass
        if t[i] == '(':
            self.sub += 1
            i = self.list(i + 1, (')',)) + 1
            self.sub -= 1
            return self.redirs(i)
        m = re.compile(r'(?:\[\[|[A-Za-z{!]+)(?=[\s;&|()<>]|$)').match(t, i)
        k = m.group() if m else None
        if k == '[[':
            return self.cond(i)
        if k == '{':
            j = self.list(m.end(), ('}',)) + 1
            return self.redirs(j)
        if k in ('!', 'time', 'then', 'do', 'else', 'elif'):
            return self.blanks(m.end()) if k in ('!', 'time') else self.err(i, 'unexpected ' + k)
        if k == 'if':
            j = self.list(m.end(), ('then',)) + 4
            while True:
                j = self.list(j, ('elif', 'else', 'fi'))
                if t.startswith('elif', j):
                    j = self.list(j + 4, ('then',)) + 4
                elif t.startswith('else', j):
                    j = self.list(j + 4, ('fi',)) + 2
                    return self.redirs(j)
                else:
                    return self.redirs(j + 2)
        if k in ('while', 'until'):
            j = self.list(m.end(), ('do',)) + 2
            j = self.list(j, ('done',)) + 4
            return self.redirs(j)
        if k in ('for', 'select'):
            j = self.blank(m.end())
            if t.startswith('((', j):
                j = self.arith(j)
            else:
                n = NAME.match(t, j)
                if not n:
                    self.err(j, 'for')
                self.code.sets.append((n.group(), self.func, self.sub, self.code.line(j), 'for'))
                j = self.blanks(n.end())
                if t.startswith('in', j) and t[j + 2] in ' \t\n;':
                    j = self.blank(j + 2)
                    while t[j] not in '\n;':
                        j2, _ = self.word(j)
                        if j2 == j:
                            self.err(j, 'for list')
                        j = self.blank(j2)
            j = self.blanks(j)
            if t[j] == ';':
                j = self.blanks(j + 1)
            j = self.keyword(j, 'do', '{')
            j = self.list(j, ('done', '}'))
            j += 4 if t.startswith('done', j) else 1
            return self.redirs(j)
        if k == 'case':
            j = self.blank(m.end())
            j, _ = self.word(j)
            j = self.blanks(j)
            j = self.keyword(j, 'in')
            while True:
                j = self.blanks(j)
                if j >= len(t):
                    self.err(i, 'unterminated case')
                if re.compile(r'esac(?![\w-])').match(t, j):
                    return self.redirs(j + 4)
                if t[j] == '(':
                    j += 1
                while t[j] != ')':
                    if t[j] in '| \t':
                        j += 1
                        continue
                    j2, _ = self.word(j, ' \t\n;|)')
                    if j2 == j:
                        self.err(j, 'case pattern')
                    j = j2
                j = self.list(j + 1, (';;', 'esac'))
                if t.startswith('esac', j):
                    continue
                j += 3 if t.startswith(';;&', j) else 2
        if k == 'function':
            j = self.blank(m.end())
            j, w = self.word(j)
            j = self.blank(j)
            if t.startswith('()', j):
                j += 2
            return self.function(j, w.raw, i)
        # function definition?
        m = re.compile(r'([^\s;&|<>()$`"\'=]+)[ \t]*\(\)').match(t, i)
        if m:
            return self.function(m.end(), m.group(1), i)
        return self.simple(i)

    def function(self, j, name, i):
        self.code.funcs.append((name, self.code.line(i), self.func))
        j = self.blanks(j)
        old, oldsub = self.func, self.sub
        self.func, self.sub = name, 0
        if self.t[j] == '(':
            self.sub = 1
        j = self.command(j)
        self.func, self.sub = old, oldsub
        return j

    def cond(self, i):
        """[[ ... ]]"""
        t = self.t
        j = i + 2
        while True:
            j = self.blanks(j)
            if j >= len(t):
                self.err(i, 'unterminated [[')
            if t.startswith(']]', j):
                return self.redirs(j + 2)
            if t[j] in '()<>&|!' and not t.startswith('<(', j):
                j += 1
                continue
            j2, _ = self.word(j, ' \t\n()' if not self.after_match(j) else ' \t\n')
            if j2 == j:
                j2 = j + 1
            j = j2

    def after_match(self, j):
        return bool(re.search(r'(=~|==|!=|=)[ \t]*$', self.t[max(0, j - 12):j]))

    REDIR = re.compile(r'(\d*)(<<<|<<-?|<>|>>|>&|<&|>\||&>>|&>|<(?!\()|>(?!\())')

    def redirs(self, i):
        """Redirections after a compound command."""
        while True:
            j = self.blank(i)
            m = self.REDIR.match(self.t, j)
            if not m:
                return i
            i = self.redir(j, m)

    def redir(self, j, m):
        if m.group(2).startswith('<<') and m.group(2) != '<<<':
            self.err(j, 'here document')
        j = self.blank(m.end())
        if self.t.startswith(('<(', '>('), j):
            j, _ = self.word(j)
            return j
        j2, _ = self.word(j)
        if j2 == j:
            self.err(j, 'redirection')
        return j2

    def simple(self, i):
        t = self.t
        start = i
        words, assigns = [], []
        temp = []
        while True:
            i = self.blank(i)
            if i >= len(t) or t[i] in '\n;|)':
                break
            m = self.REDIR.match(t, i)
            if m and not t.startswith(('<(', '>('), i):
                i = self.redir(i, m)
                continue
            if t[i] == '&':
                break
            decl = words and words[0].lit in DECL
            m = ASSIGN.match(t, i)
            if m and (not words or decl):
                k = m.end()
                if t.startswith('(', k):
                    j = self.array(k)
                elif k < len(t) and t[k] not in ' \t\n;&|)':
                    j, _ = self.word(k)
                else:
                    j = k
                if decl:
                    words.append(Word(t[i:j], m.group(1) + '=', i, False))
                else:
                    temp.append((m.group(1), i))
                i = j
                continue
            if t[i] == '(':
                self.err(i, 'unexpected (')
            j, w = self.word(i)
            if j == i:
                self.err(i, 'word')
            words.append(w)
            i = j
        line = self.code.line(start)
        if not words:
            for n, p in temp:
                self.code.sets.append((n, self.func, self.sub, self.code.line(p), '='))
        c = Cmd(words, [n for n, p in temp], self.func, self.sub, start, line)
        self.code.cmds.append(c)
        self.effects(c)
        if i == start:
            self.err(i, 'command')
        return i

    def effects(self, c):
        """Names a builtin declares or assigns."""
        if not c.words:
            return
        ws = list(c.words)
        while ws and ws[0].lit in ('builtin', 'command', 'noglob', '-', 'nocorrect') and len(ws) > 1:
            ws = ws[1:]
        name = ws[0].lit
        args = ws[1:]
        put = lambda n, how: self.code.sets.append((n, self.func, self.sub, c.line, how))
        if name in DECL:
            flags = ''.join(w.lit for w in args if w.lit and w.lit[:1] in '-+' and '=' not in w.lit)
            for w in args:
                if w.lit and w.lit[:1] in '-+' and not w.lit.endswith('='):
                    continue
                n = NAME.match(w.raw)
                if not n:
                    continue
                glob = 'g' in flags or name in ('export', 'readonly') or self.func is None
                if glob:
                    put(n.group(), name)
                else:
                    self.code.locals.setdefault(self.func, {}).setdefault(n.group(), c.line)
                    if 'n' in flags and self.shell == 'bash':
                        m = re.match(r'\w+="?\$\{?(\d+)\}?"?$', w.raw)
                        self.code.namerefs.setdefault(self.func, {})[n.group()] = int(m.group(1)) if m else 0
            return
        if name == 'read':
            skip = False
            names = []
            for w in args:
                if skip:
                    skip = False
                    continue
                if w.raw.startswith('-') and len(w.raw) > 1:
                    if self.shell == 'bash' and 'a' in w.raw[1:]:
                        continue
                    if w.raw[-1] in 'dnNptu' and self.shell == 'bash':
                        skip = True
                    continue
                n = NAME.fullmatch(w.raw.split('?')[0])
                if n:
                    names.append(n.group())
            for n in names or ['REPLY']:
                put(n, 'read')
        elif name in ('mapfile', 'readarray'):
            n = args and NAME.fullmatch(args[-1].raw)
            put(n.group() if n else 'MAPFILE', name)
        elif name == 'printf' and args and args[0].lit == '-v' and len(args) > 1:
            n = NAME.match(args[1].raw)
            if n:
                put(n.group(), 'printf -v')
        elif name == 'getopts' and len(args) > 1:
            for n in (args[1].raw, 'OPTARG', 'OPTIND'):
                put(n, name)
        elif name == 'set' and self.shell == 'zsh' and args and args[0].raw in ('-A', '+A') and len(args) > 1:
            put(args[1].raw, 'set -A')
        elif name == 'let':
            for w in args:
                for m in ARITH_SET.finditer(w.lit or ''):
                    put(next(g for g in m.groups() if g), 'let')
        elif name == 'eval' and args and all(w.lit is not None for w in args):
            pass
        if ws[0].lit is None or ws[0].quoted and ws[0].vars:
            self.code.dynamic.append(c)

    def parse(self):
        self.list(0, ('',))
        return self.code


class Fish:
    """fish."""

    def __init__(self, text):
        self.t = text
        self.code = Code(text)
        self.func = None
        self.sub = 0
        self.blocks = []

    def err(self, i, msg):
        raise Unparsed('line %d: %s: %r' % (self.code.line(i), msg, self.t[i:i + 30]))

    def blank(self, i, nl=False):
        t = self.t
        while i < len(t):
            if t[i] in ' \t' or nl and t[i] in '\n;':
                i += 1
            elif t.startswith('\\\n', i):
                i += 2
            elif t[i] == '#' and (i == 0 or t[i - 1] in ' \t\n;()'):
                while i < len(t) and t[i] != '\n':
                    i += 1
            else:
                break
        return i

    def word(self, i):
        t = self.t
        s = i
        lit, plain, quoted, vars = '', True, False, []
        while i < len(t):
            c = t[i]
            if c == '\\':
                if t.startswith('\\\n', i):
                    if i == s:
                        self.err(i, 'word')
                    i += 2
                    break
                lit += t[i + 1:i + 2]
                i += 2
            elif c == "'":
                j = i + 1
                while j < len(t) and t[j] != "'":
                    if t[j] == '\\' and t[j + 1:j + 2] in ("'", '\\'):
                        lit += t[j + 1]
                        j += 2
                    else:
                        lit += t[j]
                        j += 1
                if j >= len(t):
                    self.err(i, 'unterminated quote')
                quoted = True
                i = j + 1
            elif c == '"':
                j = i + 1
                while j < len(t) and t[j] != '"':
                    if t[j] == '\\' and t[j + 1:j + 2] in ('"', '\\', '$', '\n'):
                        lit += t[j + 1]
                        j += 2
                    elif t[j] == '$':
                        j, p = self.dollar(j, vars)
                        plain = plain and p
                    else:
                        lit += t[j]
                        j += 1
                if j >= len(t):
                    self.err(i, 'unterminated double quote')
                quoted = True
                i = j + 1
            elif c == '$':
                i, p = self.dollar(i, vars)
                plain = plain and p
            elif c == '(':
                i = self.subst(i)
                plain = False
            elif c in '{':
                lit += c
                i += 1
            elif c in ' \t\n;&|<>)':
                if c == '&' and i > s and t[i + 1:i + 2] not in ('&', ' ', '\n', ';', '') and t[i - 1] in '<>':
                    i += 1
                    continue
                break
            else:
                lit += c
                i += 1
        return i, Word(t[s:i], lit if plain else None, s, quoted, vars)

    def subst(self, i):
        old = self.blocks
        self.blocks = []
        self.sub += 1
        j = self.list(i + 1, ')')
        self.sub -= 1
        self.blocks = old
        if not self.t.startswith(')', j):
            self.err(i, 'unterminated (')
        j += 1
        while self.t.startswith('[', j):
            j = self.index(j)
        return j

    def index(self, i):
        t = self.t
        j = i + 1
        while j < len(t) and t[j] != ']':
            if t[j] == '$':
                j, _ = self.dollar(j, [])
            elif t[j] == '(':
                j = self.subst(j)
            elif t[j] == '\n':
                self.err(i, 'unterminated index')
            else:
                j += 1
        return j + 1

    def dollar(self, i, vars):
        t = self.t
        if t.startswith('$(', i):
            return self.subst(i + 1), False
        j = i
        while t.startswith('$', j):
            j += 1
        m = re.compile(r'\w+').match(t, j)
        if not m:
            return i + 1, True
        vars.append(m.group())
        j = m.end()
        while t.startswith('[', j):
            j = self.index(j)
        return j, False

    REDIR = re.compile(r'(\d*)(&>>|&>|>>\??|>\?|<\?|[<>])(&?)')

    def list(self, i, end):
        t = self.t
        while True:
            i = self.blank(i, True)
            if i >= len(t):
                if end == '':
                    if self.blocks:
                        self.err(i, 'missing end of %s' % self.blocks[-1][0])
                    return i
                self.err(i, 'end of text')
            if t[i] == ')':
                if end == ')':
                    if self.blocks:
                        self.err(i, 'missing end')
                    return i
                self.err(i, 'unexpected )')
            if t[i:i + 2] in ('&&', '||'):
                i += 2
                continue
            if t[i] in '|&':
                i += 1
                continue
            i = self.statement(i)

    def statement(self, i):
        t = self.t
        start = i
        words = []
        while True:
            i = self.blank(i)
            if i >= len(t) or t[i] in '\n;|)':
                break
            m = self.REDIR.match(t, i)
            if m:
                i = self.blank(m.end())
                j, _ = self.word(i)
                if j == i:
                    self.err(i, 'redirection')
                i = j
                continue
            if t[i] == '&':
                break
            j, w = self.word(i)
            if j == i:
                self.err(i, 'word')
            words.append(w)
            i = j
            # keywords that are followed by another command
            if len(words) == 1 and not w.quoted and w.raw in ('if', 'while', 'not', 'and', 'or', '!', 'begin', 'else', 'time'):
                if w.raw in ('if', 'while', 'begin'):
                    if not (w.raw == 'if' and self.prev == 'else'):
                        self.blocks.append((w.raw, self.func))
                self.prev = w.raw
                return i
        self.prev = None
        if not words:
            if i == start:
                self.err(i, 'statement')
            return i
        line = self.code.line(start)
        c = Cmd(words, [], self.func, self.sub, start, line)
        n = c.name
        if n == 'end':
            if not self.blocks:
                self.err(start, 'end without block')
            k, f = self.blocks.pop()
            if k == 'function':
                self.func = f
            return i
        if n == 'case':
            if not self.blocks or self.blocks[-1][0] != 'switch':
                self.err(start, 'case outside switch')
            return i
        if n == 'function':
            if len(words) < 2:
                self.err(start, 'function')
            self.blocks.append(('function', self.func))
            self.code.funcs.append((words[1].lit, line, self.func))
            if words[1].lit is None:
                self.err(start, 'function name')
            self.func = words[1].lit
            return i
        if n == 'switch':
            self.blocks.append(('switch', None))
            return i
        if n == 'for':
            self.blocks.append(('for', None))
            if len(words) > 1:
                self.code.sets.append((words[1].raw, self.func, self.sub, line, 'for'))
            return i
        self.code.cmds.append(c)
        self.effects(c)
        return i

    prev = None

    def effects(self, c):
        n = c.name
        if n is None:
            self.code.dynamic.append(c)
            return
        if n == 'set':
            flags, names = '', []
            for w in c.words[1:]:
                if w.raw.startswith('-') and not names:
                    flags += w.raw[2:3] if w.raw.startswith('--') else w.raw[1:]
                    continue
                names.append(w)
                if not any(f in flags for f in 'eq'):
                    break
            if 'q' in flags:
                return
            for w in names:
                x = re.match(r'\w+', w.raw)
                name = x.group() if x else ('$' + w.vars[0] if w.vars else w.raw)
                if 'e' in flags:
                    continue
                scope = ''.join(f for f in flags if f in 'lgUf')
                if 'x' in flags and not scope:
                    scope = 'x'
                if scope in ('l', 'f'):
                    self.code.locals.setdefault(self.func, {}).setdefault(name, c.line)
                else:
                    self.code.sets.append((name, self.func, self.sub, c.line, 'set' + (' -' + scope if scope else '')))
        elif n == 'read':
            flags = [w.raw for w in c.words[1:] if w.raw.startswith('-')]
            for w in c.words[1:]:
                if not w.raw.startswith('-'):
                    glob = any(f.startswith('-') and not f.startswith('--') and any(x in f for x in 'gU') for f in flags)
                    self.code.sets.append((w.raw, self.func, self.sub, c.line, 'read -g' if glob else 'read'))

    def parse(self):
        self.list(0, '')
        return self.code


def parse(text, shell):
    return Fish(text).parse() if shell == 'fish' else Posix(text, shell).parse()
