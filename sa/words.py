"""Readers of the words of bash, zsh and fish: text -> words after quote removal.

Any construct that is not plain text (expansions, substitutions, globs, operators,
comments, tilde and history expansion at the start of a word) raises Bad."""


class Bad(Exception):
    pass


OPERATORS = set('|&;<>()')
GLOB = set('*?[]')


def read(text, shell):
    """Words of the text."""
    return (fish if shell == 'fish' else posix)(text, shell)


def posix(t, shell, braces=False):
    words, cur, i, n = [], None, 0, len(t)
    while i < n:
        c = t[i]
        if t.startswith('\\\n', i):
            i += 2
            continue
        if c in ' \t\n':
            if c == '\n' and (cur is not None or words):
                raise Bad('the command ends at a newline')
            if cur is not None:
                words.append(cur)
                cur = None
            i += 1
            continue
        start = cur is None
        if start:
            cur = ''
        if c == "'":
            j = t.find("'", i + 1)
            if j < 0:
                raise Bad('single quote without end')
            cur += t[i + 1:j]
            i = j + 1
        elif c == '"':
            s, i = posix_double(t, i + 1)
            cur += s
        elif c == '\\':
            if i + 1 >= n:
                raise Bad('backslash at the end')
            cur += t[i + 1]
            i += 2
        elif c in '$`':
            if c == '$' and (i + 1 >= n or t[i + 1] in ' \t\n'):
                cur += c
                i += 1
                continue
            raise Bad('%s starts an expansion' % c)
        elif c in OPERATORS:
            raise Bad('%s is an operator' % c)
        elif c in GLOB:
            raise Bad('%s is a glob character' % c)
        elif c in '{}' and not braces:
            raise Bad('%s is a brace expansion' % c)
        elif start and c == '~':
            raise Bad('~ is expanded')
        elif start and c == '#':
            raise Bad('# starts a comment')
        elif shell == 'zsh' and start and c == '=' and i + 1 < n and t[i + 1] not in ' \t\n':
            raise Bad('=word is expanded to the path of a command')
        elif shell == 'zsh' and c in '^#~':
            raise Bad('%s is a glob character' % c)
        elif ord(c) < 32 or ord(c) == 127:
            raise Bad('unquoted control character')
        else:
            cur += c
            i += 1
    if cur is not None:
        words.append(cur)
    return words


def posix_double(t, i):
    out, n = '', len(t)
    while i < n:
        c = t[i]
        if c == '"':
            return out, i + 1
        if c == '\\':
            if i + 1 >= n:
                break
            d = t[i + 1]
            if d == '\n':
                pass
            elif d in '$`"\\':
                out += d
            else:
                out += c + d
            i += 2
            continue
        if c == '`':
            raise Bad('` starts a command substitution within double quotes')
        if c == '$' and i + 1 < n and t[i + 1] not in '" \t\n':
            raise Bad('$ starts an expansion within double quotes')
        out += c
        i += 1
    raise Bad('double quote without end')


def fish(t, shell='fish'):
    words, cur, i, n = [], None, 0, len(t)
    while i < n:
        c = t[i]
        if t.startswith('\\\n', i):
            i += 2
            continue
        if c in ' \t\n':
            if c == '\n' and (cur is not None or words):
                raise Bad('the command ends at a newline')
            if cur is not None:
                words.append(cur)
                cur = None
            i += 1
            continue
        start = cur is None
        if start:
            cur = ''
        if c == "'":
            i += 1
            while True:
                if i >= n:
                    raise Bad('single quote without end')
                c = t[i]
                if c == "'":
                    i += 1
                    break
                if c == '\\' and i + 1 < n and t[i + 1] in "\\'":
                    cur += t[i + 1]
                    i += 2
                    continue
                cur += c
                i += 1
        elif c == '"':
            s, i = fish_double(t, i + 1)
            cur += s
        elif c == '\\':
            if i + 1 >= n:
                raise Bad('backslash at the end')
            d = t[i + 1]
            if d in 'abcefnrtvxXuU01234567':
                raise Bad('\\%s is an escape sequence' % d)
            cur += d
            i += 2
        elif c == '$':
            raise Bad('$ starts an expansion')
        elif c in OPERATORS:
            raise Bad('%s is an operator' % c)
        elif c in GLOB:
            raise Bad('%s is a glob character' % c)
        elif c in '{}':
            raise Bad('%s is a brace expansion' % c)
        elif start and c == '~':
            raise Bad('~ is expanded')
        elif start and c == '#':
            raise Bad('# starts a comment')
        elif start and t.startswith('%self', i) and t[i + 5:i + 6] in ('', ' ', '\t', '\n', ';'):
            raise Bad('%self is expanded')
        elif start and c == '%' and '\u4e00' <= t[i + 1:i + 2] <= '\u9fff':
            raise Bad('%self is expanded')      # % and a symbolic word
        elif ord(c) < 32 or ord(c) == 127:
            raise Bad('unquoted control character')
        else:
            cur += c
            i += 1
    if cur is not None:
        words.append(cur)
    return words


def fish_double(t, i):
    out, n = '', len(t)
    while i < n:
        c = t[i]
        if c == '"':
            return out, i + 1
        if c == '\\':
            if i + 1 >= n:
                break
            d = t[i + 1]
            if d == '\n':
                pass
            elif d in '$"\\':
                out += d
            else:
                out += c + d
            i += 2
            continue
        if c == '$':
            raise Bad('$ starts an expansion within double quotes')
        out += c
        i += 1
    raise Bad('double quote without end')
