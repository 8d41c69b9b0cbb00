"""C16: generated scripts contain no unresolved template placeholders.

The texts the abstract interpreter derives for the corpus of definitions hold no
placeholder: neither one of those that occur in the templates of the generators
(found in the string constants of the source) nor anything of their shape, and no
conditional marker. Unknown parts of a text come from the definition, so they are
excluded; a part that cannot be traced back makes the script undecided."""

import ast
import re

from ..check import Check, pmap, ROOT
from ..gen import *
from ..scripts import *

RULES = {
    'placeholders-replaced': 'no script holds a placeholder of a template or anything of its shape (%NAME%)',
    'conditions-resolved': 'no script holds a conditional marker (#ifdef, #else, #endif)',
    'no-object-text': 'no script holds the text of a Python object (None as a word of a command, <... object at 0x...>, dict or list '
                      'representations)',
}

L = None
CORPUS = None
NAMES = {}

SHAPE = re.compile(r'%[A-Z][A-Z0-9_]*%')
MARK = re.compile(r'^[ \t]*#[ \t]*(ifdef|ifndef|else|elif|endif)\b.*$', re.M)
OBJECT = re.compile(r'<[\w. ]+ (object )?at 0x|<function |<class |<bound method|\bOrderedDict\(|\bextendedstr\(|'
                    r'<cat\.|<property|\bdict_(keys|values|items)\(|\bNotImplemented\b|\bNone\b|\bTrue\b|\bFalse\b|<map |<filter |<generator')


def placeholders():
    """{name: file:line} of placeholders in the string constants of the source."""
    out = {}
    for m, tree in L.p.modules.items():
        if not m.startswith('crazy_complete.') or 'shtab' in m:
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr):
                docs.add(id(n.body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs:
                for x in SHAPE.findall(n.value):
                    out.setdefault(x, '%s:%d' % (m.replace('.', '/') + '.py', n.lineno))
    return out


def where(t, pos):
    a = t.rfind('\n', 0, pos) + 1
    b = t.find('\n', pos)
    return t.count('\n', 0, pos) + 1, t[a:b if b >= 0 else len(t)].strip()


def run(item):
    key, shell = item
    f, cfg = CORPUS[key]
    s = emit(L, shell, f(), cfg)
    if s.text is None:
        return [('placeholders-replaced', '%s in %s' % (key, shell), 'undecided', s.error, '')]
    t = s.text
    out = []
    file = 'crazy_complete/%s.py' % shell

    def rule(r, rx, name):
        found = list(rx.finditer(t))
        if not found:
            out.append((r, '%s in %s' % (key, shell), 'ok', '', ''))
        for m in found[:5]:
            line, text = where(t, m.start())
            out.append((r, '%s in %s' % (name(m), shell), 'violation',
                        '%s: line %d of the script: %s' % (key, line, text), NAMES.get(m.group(), file)))
    rule('placeholders-replaced', SHAPE, lambda m: m.group())
    rule('conditions-resolved', MARK, lambda m: ' '.join(m.group().split()))
    rule('no-object-text', OBJECT, lambda m: m.group())
    return out


def main():
    global L, CORPUS
    ck = Check('C16', 'Generated scripts contain no unresolved template placeholders', RULES, floor=300, assumptions=[
        'the corpus uses every completer alone, every condition form, every kind of option, positional and subcommand and every '
        'configuration setting; the text of a script is derived by abstract interpretation of the generators',
        'texts of the definition itself that look like placeholders are outside of the property'])
    L = Lab(ROOT)
    L.I.max_steps = 20_000_000
    NAMES.update(placeholders())
    ck.unit('placeholders of templates', sorted(NAMES))
    CORPUS = corpus(ck.tier)
    items = [(k, s) for k in CORPUS for s in SHELLS]
    for (k, s), res, err in pmap(run, items):
        if err:
            ck.unknown('placeholders-replaced', '%s in %s' % (k, s), err)
        else:
            ck.merge(res)
    ck.unit('scripts', ['%s: %s' % (s, k) for k, s in items])
    return ck.finish()
