"""C27: translated messages are complete and consistent.

Every function of the message catalogue is interpreted with symbolic arguments in
every language, every reference to the catalogue is resolved, and validation is
interpreted in every language on malformed definitions."""

import ast

from ..check import Check, pmap, ROOT
from ..vlab import *
from .. import strings as S

RULES = {
    'text': 'a message is one text in every language',
    'parameters': 'every parameter of a message appears in its text in every language',
    'translated': 'a message has another text in every other supported language, and the English one in unsupported languages',
    'exists': 'every reference to the message catalogue names a message',
    'called': 'every message referred to is called with arguments that fit its parameters',
    'same-verdict': 'the language changes the text of an error only, not whether, where or as what it is raised',
    'language': 'the language is the one of the first variable set among LANGUAGE, LC_ALL, LC_MESSAGES and LANG, without territory and encoding',
}
L = None
MOD = 'crazy_complete.messages'
FILE = 'crazy_complete/messages.py'


def catalogue():
    """{message: FunctionDef} of public functions that return texts."""
    tree = L.p.modules[MOD]
    out = {}
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and not n.name.startswith('_') and not n.name.startswith(('get_', 'normalize_', 'set_')):
            out[n.name] = n
    return out


def languages():
    """Languages that LANG is compared with or that index a table."""
    out = {'en'}
    import re
    for n in ast.walk(L.p.modules[MOD]):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch('[a-z]{2}', n.value):
            out.add(n.value)
    return sorted(out)


def references():
    """[(module, name or None, Attribute/Name node, Call node or None)] of uses of the catalogue."""
    out = []
    for mod, tree in L.p.modules.items():
        if not mod.startswith('crazy_complete') or mod == MOD:
            continue
        alias, direct = set(), {}
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and (n.module in (None, 'crazy_complete') or n.level):
                for a in n.names:
                    if a.name == 'messages' and n.module in (None, 'crazy_complete'):
                        alias.add(a.asname or a.name)
                    elif n.module in ('messages', MOD) and a.name != '*':
                        direct[a.asname or a.name] = a.name
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == MOD and a.asname:
                        alias.add(a.asname)
        calls = {id(n.func): n for n in ast.walk(tree) if isinstance(n, ast.Call)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias:
                out.append((mod, n.attr, n, calls.get(id(n))))
            elif isinstance(n, ast.Name) and n.id in direct and isinstance(n.ctx, ast.Load):
                out.append((mod, direct[n.id], n, calls.get(id(n))))
    return out


def speak(lang):
    st = L.base
    o = st.heap.get(('M', MOD))
    if o is None or 'LANG' not in o.data:
        return False
    st.w(('M', MOD)).data['LANG'] = const(lang)
    return True


def message(name, lang):
    """(text or None, parameters, error)"""
    f = catalogue()[name]
    pars = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
    speak(lang)
    st = L.state()
    args = {p: string(W1('par ' + p)) for p in pars}
    with L.frame() as fr:
        try:
            v = L.call(st, 'messages.' + name, **args)
        except Bottom:
            return None, pars, 'no result'
    if fr.excs():
        return None, pars, 'may fail'
    ss = [S.encode(a[1]) if a[0] == 's' else None for a in v]
    if len(ss) != 1:
        return None, pars, 'several results' if len(ss) > 1 else 'no result'
    if ss[0] is None:
        return None, pars, 'not exact' if any(a[0] in ('s', 'u') for a in v) else 'no text'
    return ss[0], pars, ''


def texts(name):
    f = catalogue()[name]
    w = L.p.where(f)
    out = []
    langs = languages()
    got = {}
    for lang in langs + ['fr', 'xx']:
        t, pars, err = message(name, lang)
        key = '%s in %s' % (name, lang)
        got[lang] = t
        if t is None:
            if err in ('no result', 'no text', 'may fail'):
                out.append(('text', key, 'violation', 'message %s gives no text in language %s: %s' % (name, lang, err), w))
            else:
                out.append(('text', key, 'undecided', err, ''))
            continue
        if not t.strip():
            out.append(('text', key, 'violation', 'message %s is empty in language %s' % (name, lang), w))
            continue
        out.append(('text', key, 'ok', '', ''))
        for p in pars:
            c = S.encode(W1('par ' + p))
            ok = c in t
            out.append(('parameters', '%s: %s' % (key, p), 'ok' if ok else 'violation',
                        '' if ok else 'the text of %s in language %s lacks the parameter %s' % (name, lang, p), w))
            if '{%s}' % p in t:
                out.append(('parameters', '%s: %s' % (key, p), 'violation', 'the text of %s in language %s holds the name of %s instead of its value' % (
                    name, lang, p), w))
    for lang in langs:
        if lang == 'en' or got.get(lang) is None or got.get('en') is None:
            continue
        ok = got[lang] != got['en']
        out.append(('translated', '%s in %s' % (name, lang), 'ok' if ok else 'violation',
                    '' if ok else 'the message %s has no text of its own in language %s' % (name, lang), w))
    for lang in ('fr', 'xx'):
        if got.get(lang) is not None and got.get('en') is not None and lang not in langs:
            ok = got[lang] == got['en']
            out.append(('translated', '%s in %s' % (name, lang), 'ok' if ok else 'violation',
                        '' if ok else 'the message %s is not English in the unsupported language %s' % (name, lang), w))
    return out


def refs():
    out = []
    cat_ = catalogue()
    tree = L.p.modules[MOD]
    names = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for n in tree.body:
        for t in getattr(n, 'targets', [getattr(n, 'target', None)]):
            if isinstance(t, ast.Name):
                names.add(t.id)
    used = set()
    for mod, name, node, call in references():
        w = L.p.where(node)
        key = '%s in %s' % (name, mod.rsplit('.', 1)[-1])
        if name not in names:
            out.append(('exists', key, 'violation', 'the catalogue has no message %s' % name, w))
            continue
        out.append(('exists', key, 'ok', '', ''))
        if name not in cat_:
            continue
        used.add(name)
        f = cat_[name]
        if call is None:
            continue
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            out.append(('called', key, 'undecided', 'arguments not listed', ''))
            continue
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        need = set(pos[:len(pos) - len(a.defaults)]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        given = set(pos[:len(call.args)]) | {k.arg for k in call.keywords}
        bad = len(call.args) > len(pos) and not a.vararg or need - given or \
            {k.arg for k in call.keywords} - set(pos) - {x.arg for x in a.kwonlyargs} and not a.kwarg
        out.append(('called', '%s at %s' % (key, ast.unparse(call)[:60]), 'violation' if bad else 'ok',
                    'the arguments do not fit %s(%s)' % (name, ', '.join(pos)) if bad else '', w))
    return out


def verdict(item):
    key, f = item
    defs = ITEMS[key]
    res = {}
    for lang in languages() + ['fr']:
        speak(lang)
        o = via_validator(L, defs)
        res[lang] = (o.normal, [tuple(e) for e in o.excs], o.text)
    en = res['en']
    out = []
    for lang in res:
        k = '%s in %s' % (key, lang)
        r = res[lang]
        a = (en[0], sorted((e[0], str(e[1:2])) for e in en[1]))
        b = (r[0], sorted((e[0], str(e[1:2])) for e in r[1]))
        if a[0] != b[0] or {x[0] for x in a[1]} != {x[0] for x in b[1]}:
            out.append(('same-verdict', k, 'violation', '%s: %s in English, %s in language %s' % (key, en[2], r[2], lang), FILE))
        else:
            out.append(('same-verdict', k, 'ok', '', ''))
    return out


ENV = ['LANGUAGE', 'LC_ALL', 'LC_MESSAGES', 'LANG']


def language(item):
    env, want = item
    env = dict(env)
    st = L.state()

    def get(I, args, kw, st, node):
        ok, n = const_of(args[0])
        if not ok:
            return None
        d = args[1] if len(args) > 1 else kw.get('default', const(None))
        return const(env[n]) if n in env else d
    E = L.I.ext_models
    old = {k: E.get(k) for k in ('os.environ.get', 'os.getenv', 'locale.getlocale', 'locale.setlocale')}
    E['os.environ.get'] = E['os.getenv'] = get
    E['locale.getlocale'] = lambda I, a, kw, st, node: V(('tup', (const(None), const(None))))
    E['locale.setlocale'] = lambda I, a, kw, st, node: const('C')
    try:
        with L.frame() as fr:
            try:
                v = L.call(st, 'messages.get_lang')
            except Bottom:
                v = None
    finally:
        for k, m in old.items():
            if m is None:
                E.pop(k, None)
            else:
                E[k] = m
    key = ', '.join('%s=%s' % x for x in sorted(env.items())) or 'no variable'
    t = None
    if v and len(v) == 1:
        ok, t = const_of(v)
        t = t if ok else None
    if v is None or not v:
        return [('language', key, 'violation', 'the language is not found: %s' % key, FILE)]
    if t is None:
        return [('language', key, 'undecided', 'language not derived', '')]
    return [('language', key, 'ok' if t == want else 'violation', '' if t == want else 'the language is %r, not %r' % (t, want), FILE)]


def envs():
    out = [((), 'en')]
    for i, e in enumerate(ENV):
        for v, w in (('de_DE.UTF-8', 'de'), ('de', 'de'), ('en_US', 'en'), ('fr_FR.UTF-8', 'fr'), ('DE_de', 'de'), ('de.UTF-8', 'de')):
            out.append((((e, v),), w))
            for f in ENV[i + 1:]:
                out.append((((e, v), (f, 'it_IT.UTF-8')), w))
                out.append((((e, ''), (f, v)), w))
    return out


ITEMS = {}


def malformed(tier):
    """A sample of the malformed definitions of C05."""
    out = {}
    b = base()
    out['well formed'] = b
    for name in CATALOG:
        for n, inv in (('no arguments', [name]), ('too many', [name] + ['x'] * 7), ('wrong option', [name, {'foo': 1}]), ('number', [name, 5]),
                       ('empty', [name, []]), ('empty dictionary', [name, {}]), ('empty text', [name, ''])):
            out['%s: %s' % (name, n)] = host(inv, 'option' if name != 'command_arg' else 'positional')[0]
            out['%s: %s in a list' % (name, n)] = host(inv, 'option/list')[0]
    for w in ('', 'foo', 'option_is', 'option_is --x', 'option_is --', 'option_is -- x', 'has_option', 'has_option x', 'positional_count', 'positional_count == x',
              'positional_contains', 'positional_contains 0 x', 'option_match', "option_match --x -- '('", '(', '! ', 'has_option -b &&', 'positional_count <> 1',
              'positional_count == 1 2', 'has_option -b has_option -c'):
        d = base()
        d[0]['options'][0]['when'] = w
        out['when %r' % w] = d
    for lev, k in (('options', 'option_strings'), ('positionals', 'number')):
        for v in ([], '', 0, -1, None, ['x'], ['-'], ['--'], ['- x'], 'x', {}):
            d = base()
            d[0][lev][0][k] = v
            out['%s.%s = %r' % (lev, k, v)] = d
    d = base()
    out['twice'] = d + [d[1]]
    out['missing program'] = d[:1] + d[2:]
    out['several programs'] = d + [dict(prog='other')]
    d = base()
    d[0]['positionals'][0]['repeatable'] = True
    d[0]['positionals'].append(dict(number=2, repeatable=True))
    out['repeatable positionals'] = d
    return out


def work(item):
    k = item[0]
    if k == 'msg':
        return texts(item[1])
    if k == 'env':
        return language(item[1])
    return verdict((item[1], None))


def main():
    global L
    ck = Check('C27', 'Translated messages are complete and consistent', RULES, floor=100, assumptions=[
        'the supported languages are those the catalogue compares with (two-letter codes)'])
    L = Lab2(ROOT)
    if MOD not in L.p.modules:
        raise AnalysisBroken('no message catalogue')
    c = catalogue()
    ck.unit('messages', c)
    ck.unit('languages', languages())
    r = refs()
    ck.merge(r)
    ck.unit('references', ['%s: %s' % (m.rsplit('.', 1)[-1], n) for m, n, _, _ in references()])
    ITEMS.update(malformed(ck.tier))
    items = [('msg', n) for n in c] + [('env', e) for e in envs()]
    if speak('en'):
        items += [('bad', k) for k in ITEMS]
    for it, res, err in pmap(work, items):
        if err:
            ck.unknown('text', str(it[1]), err)
        else:
            ck.merge(res)
    return ck.finish()
