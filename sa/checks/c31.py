"""C31: patterns built from texts match exactly these texts.  The functions that fold
option strings, command names and values into one shell pattern are interpreted on
sets of texts of every shape (shared beginnings, one the beginning of another, numbers
with and without gaps, of several digits, with leading zeros); the pattern is read as a
bash pattern and its language compared with the set as automata."""

import itertools

from ..check import Check, pmap, ROOT
from ..gen import *
from ..globs import read_glob, differ, Bad, Unsupported, ch
from . import c12

RULES = {
    'exact': 'the pattern made for a list of texts matches these texts and nothing else',
}
L = None
FUNCS = {'bash_patterns.make_pattern': True, 'bash_patterns.compact_glob_trie': True}


def families():
    """{name: list of texts}"""
    out = {}

    def add(*ts):
        out.setdefault(' '.join(ts), list(ts))
    for p in ('', '-', '--', '--longoption', '--longoption-', '--long-option='):
        for a, b in ((0, 1), (1, 3), (8, 10), (9, 10), (9, 11), (7, 12), (10, 12), (98, 101), (19, 21), (5, 5)):
            add(*[p + str(i) for i in range(a, b + 1)])
        add(*[p + str(i) for i in (1, 2, 4)])
        add(*[p + str(i) for i in (1, 3)])
        add(*[p + i for i in ('1', '01')])
        add(*[p + i for i in ('007', '8')])
        add(*[p + i for i in ('1', '2', '2x')])
        add(*[p + i for i in ('1', '2', '12')])
        add(*[p + i for i in ('1', '2', '1', '3')])
        add(*[p + i for i in ('1', '2', 'a')])
        add(*[p + i for i in ('3', '2', '1', '0')])
        add(*[p + i for i in ('0', '1', '2', '3', '4', '5', '6', '7', '8', '9')])
        add(*[p + i for i in ('a', 'b', 'c')])
        add(*[p + i for i in ('a', 'ab', 'abc')])
        add(*[p + i for i in ('abc', 'abd', 'xbc', 'xbd')])
        add(*[p + i for i in ('ax', 'bx')])
        add(*[p + i for i in ('1x', '2x', '3x')])
        add(*[p + i for i in ('1', '2_', '3')])
        add(*[p + i for i in ('1', '\u0662', '3')])
        add(*[p + i for i in ('\u0663', '\u0664')])
        add(*[p + i for i in ('\u00b2', '\u00b3')])
        add(*[p + i for i in (' 1', ' 2')] if p else ['x1', 'x2'])
    for n in (1, 2, 3):
        for c in itertools.combinations(['--a', '--ab', '--abc', '--b1', '--b2', '--b10', '-a', '-b'], n):
            add(*c)
    for c in itertools.combinations(['--verbose-1', '--verbose-2', '--verbose-10', '--verbose-11', '--verbose', '--verbosity'], 3):
        add(*c)
    return out


def language(ts):
    return ('alt', [('cat', [ch(c) for c in t]) for t in ts])


def run(item):
    f, names = item
    fam = families()
    out = []
    where = L.where_of(f)
    for n in names:
        ts = fam[n]
        key = '%s(%s)' % (f.split('.')[1], n)
        p, err = c12.result(lambda st: L.call(st, f, L.val(st, list(ts))))
        if not isinstance(p, str):
            raised = isinstance(err, tuple)
            out.append(('exact', key, 'violation' if raised else 'undecided', 'no pattern, but an exception' if raised else str(err), where if raised else ''))
            continue
        try:
            w = differ(language(ts), read_glob('@(%s)' % p))
        except Unsupported as e:
            out.append(('exact', key, 'undecided', '%r: %s' % (p, e), ''))
            continue
        except Bad as e:
            w = 'malformed: %s' % e
        out.append(('exact', key, 'ok' if w is None else 'violation', '' if w is None else 'the pattern %r for %s differs at %r' % (p, ts, w), where))
    return out


def main():
    global L
    ck = Check('C31', 'Patterns built from texts match exactly these texts', {'exact': RULES['exact']}, floor=100, assumptions=[
        'texts without characters special to patterns (those are quoted before, see C11)',
        'sets of other texts behave like those analysed, which share and end prefixes in every order up to three texts and hold numbers of every shape'])
    L = c12.L = Lab(ROOT)
    fam = list(families())
    items = [(f, fam[i::4]) for f in FUNCS for i in range(4)]
    for it, res, err in pmap(run, items):
        if err:
            ck.unknown('exact', '%s %s' % (it[0], it[1][0]), err)
        else:
            ck.merge(res)
    ck.unit('sets of texts', fam)
    ck.unit('functions', FUNCS)
    return ck.finish()
