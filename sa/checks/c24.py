"""C24: the manual describes exactly the completers that exist.

The completers of the manual, of the documentation and of the validator are
compared as sets; the manual pages are derived by abstract interpretation and
compared with the documentation, its examples are validated, and the scripts of
every completer are compared with those of `none` to see whether a shell
implements it."""

import ast
import os
import re

import yaml

from ..check import Check, pmap, ROOT
from ..vlab import *
from ..gen import *
from ..world import World, Run
from .. import strings as S

RULES = {
    'same-set': 'the manual, the documentation and the validator know the same completers',
    'page': 'the manual page of a completer shows its name, description, example, output, notes and related completers as documented',
    'colors': 'the page with colors has the same text as the page without',
    'topics': 'an unknown topic lists every completer',
    'example': 'the documented example is a valid definition that uses the completer',
    'related': 'related completers named by a page exist',
    'implemented': 'a completer documented for a shell gives another script than `none` for that shell',
    'sections': 'the documentation has a section and a table row for every completer',
}
L = None
V2 = None
DOCS = {}
MANUAL = 'crazy_complete/manual.py'
VALID = 'crazy_complete/scheme_validator.py'


def documented():
    with open(os.path.join(ROOT, 'docs', 'commands.yaml'), encoding='utf-8') as fh:
        return {d['command']: d for d in yaml.safe_load_all(fh) if d}


def manual_table():
    """Completers of the manual: the table of the module as evaluated."""
    st = L.state()
    v = L.I.resolve(st, 'crazy_complete.manual.COMMANDS')
    names = []
    (a,) = v
    for e, m in L.I.iterate(v, st, L.node()):
        ok, n = const_of(L.I.subscript(e, const('command'), st, L.node()))
        if ok:
            names.append(n)
    return names


def candidates():
    """Names that may be completers for the validator: keys of tables and
    compared constants, and the methods of the completers of the shells."""
    out = set()
    for mod in ('scheme_validator', 'shell', 'bash_complete', 'fish_complete', 'zsh_complete'):
        tree = L.p.modules.get('crazy_complete.' + mod)
        if tree is None:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch('[a-z][a-z_]+', n.value):
                out.add(n.value)
            elif isinstance(n, ast.FunctionDef) and re.fullmatch('[a-z][a-z_]+', n.name):
                out.add(n.name)
    return out


UNKNOWN_TEXT = None


def unknown_text():
    """The message of the validator for an unknown completer."""
    o = via_validator(V2, host(['no_such_completer', 'x'], 'option')[0])
    return '' if o.normal else o.text.split('no_such_completer')[0].split('(')[-1].strip("'\" :")


def accepted_name(name):
    """Whether the validator knows the completer (None: undecided)."""
    for ctx in ('option', 'positional'):
        o = via_validator(V2, host([name], ctx)[0])
        if o.normal:
            return True
        if UNKNOWN_TEXT and UNKNOWN_TEXT in o.text and o.text.count('Error(') <= 1:
            return False
    return True


def name_rules(name):
    out = []
    man, doc, val = name in MAN, name in DOCS, accepted_name(name)
    if not (man or doc or val):
        return out
    for have, who, where in ((man, 'the manual', MANUAL), (doc, 'docs/commands.yaml', 'docs/commands.yaml'), (val, 'the validator', VALID)):
        if have:
            out.append(('same-set', '%s in %s' % (name, who), 'ok', '', ''))
        else:
            out.append(('same-set', '%s in %s' % (name, who), 'violation', 'the completer %s is missing in %s' % (name, who), where))
    if name in MAN and MAN.count(name) > 1:
        out.append(('same-set', '%s once' % name, 'violation', 'the manual lists %s twice' % name, MANUAL))
    return out


def printed(func, *args):
    L.reset({})
    st = L.state()
    with L.frame() as fr:
        try:
            L.call(st, func, *[L.val(st, a) for a in args])
        except Bottom:
            return None, 'fails: ' + messages(L, fr)
    t = []
    for e in L.events:
        if e.kind == 'print':
            if e.may or any(x is None for x in e.texts):
                return None, 'not exact'
            end = const_of(e.end)[1] if e.end is not None else '\n'
            t.append(' '.join(e.texts) + (end or ''))
    if fr.excs():
        return None, 'may fail: ' + messages(L, fr)
    return ''.join(t), ''


ANSI = re.compile('\x1b\\[[0-9;]*m')


def squeeze(t):
    return ' '.join(t.split())


def page(name):
    out = []
    d = DOCS[name]
    where = L.where_of('manual.print_help_for_command')
    plain_page = None
    for colors in (False, True):
        for func in ('manual.print_help_for_command', 'manual.print_help_topic'):
            t, err = printed(func, name, colors)
            key = '%s%s by %s' % (name, ' in colors' if colors else '', func.split('.')[1])
            if t is None:
                out.append(('page', key, 'violation' if err.startswith('fails') else 'undecided', err, where))
                continue
            t = ANSI.sub('', t)
            sq = squeeze(t)
            want = [('name', name), ('description', d['short']), ('long description', d.get('long')), ('example', d['definition']), ('output', d['output'])]
            want += [('note', n) for n in d.get('notes') or ()]
            for k, v in (d.get('also') or {}).items():
                want += [('related completer', '%s: %s' % (k, v))]
            bad = [(w, x) for w, x in want if x and squeeze(x) not in sq]
            for sh in d.get('implemented') or ():
                if not re.search(r'only implemented in[^\n]*\b%s\b' % sh, t):
                    bad.append(('shells', sh))
            if not d.get('implemented') and 'only implemented in' in t:
                bad.append(('shells', 'all'))
            if bad:
                for w, x in bad[:4]:
                    out.append(('page', '%s: %s' % (key, w), 'violation', 'the page of %s lacks the %s %r' % (name, w, x[:80]), MANUAL))
            else:
                out.append(('page', key, 'ok', '', ''))
            if plain_page is None:
                plain_page = sq
            elif colors or True:
                same = sq == plain_page
                out.append(('colors', key, 'ok' if same else 'violation', '' if same else 'the page of %s differs from the one without colors' % name, MANUAL))
    for r in d.get('also') or ():
        ok = r in DOCS and r in MAN
        out.append(('related', '%s names %s' % (name, r), 'ok' if ok else 'violation', '' if ok else 'there is no completer %s' % r, MANUAL))
    # example
    defs = [x for x in yaml.safe_load_all(d['definition']) if x]
    o = via_validator(V2, defs)
    if o.normal:
        out.append(('example', name, 'ok', '', ''))
    elif all(e[1] for e in o.excs):
        out.append(('example', name, 'violation', 'the example of %s is rejected: %s' % (name, o.text), 'docs/commands.yaml'))
    else:
        out.append(('example', name, 'undecided', o.text, ''))
    uses = "'%s'" % name in repr(defs)
    out.append(('example', name + ' used', 'ok' if uses else 'violation', '' if uses else 'the example of %s does not use it' % name, 'docs/commands.yaml'))
    return out


def implemented(item):
    name, shell = item
    d = DOCS[name]
    out = []
    listed = [s.lower() for s in d.get('implemented') or ('bash', 'fish', 'zsh')]
    if shell not in listed or name == 'none' or name not in CATALOG:
        return out
    c = CATALOG[name]
    for where in ('option', 'positional'):
        if name == 'command_arg' and where == 'option':
            continue
        for kind, inv in (('full', c.full()),):
            texts = []
            for v in (inv, ['none']):
                if name == 'command_arg':
                    t = simple(positionals=[(1, dict(complete=['command'])), (2, dict(complete=v, repeatable=True))])
                else:
                    t = with_completer(c, v, where)
                L.I.steps = 0
                g = generate(L, shell, t)
                texts.append(g.text)
            key = '%s as %s in %s' % (name, where, shell)
            if None in texts:
                out.append(('implemented', key, 'undecided', g.error, ''))
            elif texts[0] == texts[1]:
                # a chain of empty alternatives is nothing else than none
                f = 'crazy_complete/%s_complete.py' % shell
                out.append(('implemented', key, 'violation', 'the script is the one of `none`', f))
            else:
                out.append(('implemented', key, 'ok', '', ''))
    return out


def topics(item):
    out = []
    for topic in ('no_such_topic', 'all', ''):
        t, err = printed('manual.print_help_topic', topic, False)
        if t is None:
            out.append(('topics', repr(topic), 'violation' if err.startswith('fails') else 'undecided', err, MANUAL))
            continue
        words = set(t.split())
        for n in DOCS:
            ok = n in words
            out.append(('topics', '%s for %r' % (n, topic), 'ok' if ok else 'violation', '' if ok else 'the list of topics lacks ' + n, MANUAL))
    L.I.ext_models['os.isatty'] = lambda *a: const(False)
    L.I.ext_models['sys.stdout.isatty'] = lambda *a: const(False)
    for argv, want in ((['--manual', 'file'], 'file'), (['--manual=history'], 'history'), (['--manual'], None)):
        r = Run(L, argv, {})
        t = []
        for e in L.events:
            if e.kind == 'print' and all(x is not None for x in e.texts):
                t.append(' '.join(e.texts))
        t = squeeze('\n'.join(t))
        key = ' '.join(argv)
        need = [squeeze(DOCS[want]['definition']), DOCS[want]['short']] if want else list(DOCS)
        if r.broken or not t:
            out.append(('page', key, 'undecided', str(r.broken), ''))
        elif all(n in t for n in need):
            out.append(('page', key, 'ok', '', ''))
        else:
            out.append(('page', key, 'violation', 'the output of `crazy-complete %s` lacks %r' % (key, [n for n in need if n not in t][:3]), MANUAL))
    return out


def sections():
    out = []
    for f in ('documentation.md', 'commands.md', 'documentation.md.in'):
        p = os.path.join(ROOT, 'docs', f)
        if not os.path.exists(p) or f.endswith('.in'):
            continue
        with open(p, encoding='utf-8') as fh:
            t = fh.read().replace('\\_', '_')
        heads = set(re.findall(r'^### ([a-z_]+)\s*$', t, re.M))
        rows = dict(re.findall(r'^\| \[([a-z_]+)\]\(#[a-z_]+\) +\| (.*?) *\|$', t, re.M))
        for n in sorted(set(DOCS) | set(rows)):
            key = '%s in docs/%s' % (n, f)
            if n not in DOCS:
                out.append(('sections', key, 'violation', 'documents the unknown completer ' + n, 'docs/' + f))
                continue
            miss = [w for w, h in (('section', n in heads), ('table row', n in rows)) if not h]
            if n in rows and rows[n] != DOCS[n]['short']:
                miss.append('description')
            out.append(('sections', key, 'violation' if miss else 'ok', '%s: no %s of %s' % (f, ' and no '.join(miss), n) if miss else '', 'docs/' + f))
    return out


MAN = []


def work(item):
    return {'name': name_rules, 'page': page, 'impl': implemented, 'topics': topics}[item[0]](item[1])


def main():
    global L, V2, UNKNOWN_TEXT
    ck = Check('C24', 'The manual describes exactly the completers that exist', RULES, floor=200, assumptions=[
        'docs/commands.yaml is the documentation of the completers; the manual and the other documents are generated from it'])
    L = World(ROOT)
    L.I.max_steps = 20_000_000
    V2 = Lab2(ROOT)
    DOCS.update(documented())
    if ('M', 'crazy_complete.messages') in V2.base.heap:
        V2.base.w(('M', 'crazy_complete.messages')).data['LANG'] = const('en')
    MAN[:] = manual_table()
    UNKNOWN_TEXT = unknown_text()
    names = sorted(candidates() | set(DOCS) | set(MAN))
    items = [('name', n) for n in names]
    items += [('page', n) for n in DOCS] + [('topics', 0)]
    items += [('impl', (n, s)) for n in DOCS for s in SHELLS]
    for it, res, err in pmap(work, items):
        if err:
            ck.unknown('same-set', str(it), err)
        else:
            ck.merge(res)
    ck.merge(sections())
    ck.unit('documented completers', DOCS)
    ck.unit('completers of the manual', MAN)
    ck.unit('candidate names', names)
    return ck.finish()
