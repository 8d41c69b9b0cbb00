"""Bookkeeping shared by all checks: obligations, verdicts, evidence."""

import gc
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import strings as S
from .engine import AnalysisBroken, Bottom

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('CRAZY_ROOT', '/repo')
FINDINGS = os.path.join(HERE, 'known_findings.json')


class Check:
    def __init__(self, pid, title, rules, assumptions=(), floor=1):
        """rules: {rule name: text}.  floor: minimal number of decided
        obligations below which the run counts as broken."""
        self.pid, self.title, self.rules = pid, title, rules
        self.assumptions = list(assumptions)
        self.floor = floor
        self.obl = {}            # (rule, key) -> (verdict, detail)
        self.units = {}
        self.t0 = time.time()
        self.broken = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'

    # verdicts ----------------------------------------------------------

    def put(self, rule, key, verdict, detail='', where=''):
        assert rule in self.rules, rule
        old = self.obl.get((rule, key))
        rank = {'ok': 0, 'undecided': 1, 'violation': 2}
        if old is None or rank[verdict] > rank[old[0]]:
            self.obl[(rule, key)] = (verdict, detail, where)

    def ok(self, rule, key, detail=''):
        self.put(rule, key, 'ok', detail)

    def bad(self, rule, key, detail, where=''):
        self.put(rule, key, 'violation', detail, where)

    def unknown(self, rule, key, detail=''):
        self.put(rule, key, 'undecided', detail)

    def merge(self, results):
        """results: iterable of (rule, key, verdict, detail, where)."""
        for r in results:
            self.put(*r)

    def unit(self, kind, names):
        self.units.setdefault(kind, set()).update(names)

    # end ---------------------------------------------------------------

    def finish(self):
        known = load_findings()
        mine = {(f['rule'], f['construct']): f for f in known if f['property'] == self.pid}
        vio, found = [], []
        for (rule, key), (v, detail, where) in sorted(self.obl.items()):
            if v == 'violation':
                if (rule, key) in mine:
                    found.append((rule, key, detail, where))
                else:
                    vio.append((rule, key, detail, where))
        n = {k: sum(1 for x in self.obl.values() if x[0] == k)
             for k in ('ok', 'undecided', 'violation')}
        samples = [{'rule': r, 'construct': k, 'verdict': v[0], 'detail': v[1][:300]}
                   for (r, k), v in list(sorted(self.obl.items()))[::max(1, len(self.obl) // 12)]]
        cov = {
            'explanation': 'Static analysis of the source of the current /repo tree. An obligation is one '
                           'instance of a rule for one construct; "undecided" instances (the analysis lost '
                           'precision) are not counted as discharged and raise no alarm.',
            'rules': self.rules,
            'obligations': len(self.obl),
            'discharged': n['ok'],
            'undecided': n['undecided'],
            'known_findings': len(found),
            'obligations_per_rule': {r: sum(1 for (q, _) in self.obl if q == r) for r in self.rules},
            'undecided_keys': [k for (r, k), v in sorted(self.obl.items()) if v[0] == 'undecided'][:60],
            'analysed': {k: (len(v) if len(v) > 80 else sorted(v)) for k, v in self.units.items()},
            'samples': samples,
        }
        ev = {
            'property': self.pid, 'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other', 'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3), 'violations': len(vio),
        }
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=True)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known) in %.1fs' % (
            self.pid, len(self.obl), n['ok'], n['undecided'], n['violation'], len(found),
            time.time() - self.t0))
        for rule, key, detail, where in found:
            print('KNOWN-FINDING: property=%s %s [%s]: %s' % (
                self.pid, key, rule, mine[(rule, key)].get('what', detail)))
        if vio:
            path = os.path.join(d, self.pid + '.violations.txt')
            with open(path, 'w') as fh:
                for rule, key, detail, where in vio:
                    fh.write('property: %s\nrule: %s: %s\nconstruct: %s\nwhere: %s\n%s\n\n' % (
                        self.pid, rule, self.rules[rule], key, where, detail))
            for rule, key, detail, where in vio[:40]:
                print('  %s: [%s] %s: %s' % (where or '?', rule, key, detail[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.broken:
            print('ANALYSIS-BROKEN: ' + '; '.join(self.broken))
            return 2
        if n['ok'] + n['violation'] < self.floor:
            print('ANALYSIS-BROKEN: only %d obligations decided, expected at least %d' % (
                n['ok'] + n['violation'], self.floor))
            return 2
        return 0


def load_findings():
    try:
        with open(FINDINGS) as fh:
            return json.load(fh)['findings']
    except FileNotFoundError:
        return []


# ----------------------------------------------------------------------
# Parallel map over independent obligations (fork; the loaded program is
# shared).  A worker function returns a list of (rule, key, verdict, detail,
# where) tuples.
# ----------------------------------------------------------------------

_fn = None


def pretty(x):
    """Show encoded holes by their labels."""
    if isinstance(x, str) and S.has_letter(x):
        return ''.join(c if c not in S._dec else '<%s>' % S._dec[c].a[0] for c in x)
    return x


def _run(item):
    try:
        r = _fn(item)
        if isinstance(r, list):
            r = [tuple(pretty(x) for x in t) if isinstance(t, tuple) else t for t in r]
        return r
    except (AnalysisBroken, Bottom, RecursionError, MemoryError) as e:
        return ('ERR', item, '%s: %s' % (type(e).__name__, e))
    except Exception as e:
        return ('ERR', item, ''.join(traceback.format_exception_only(type(e), e)) +
                (traceback.format_exc() if os.environ.get('SA_DEBUG') else ''))


def pmap(fn, items, jobs=None):
    """Yields (item, result or None, error)."""
    global _fn
    _fn = fn
    items = list(items)
    jobs = jobs or int(os.environ.get('SA_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
    if jobs == 1 or len(items) < 2:
        out = [_run(i) for i in items]
    else:
        ctx = multiprocessing.get_context('fork')
        gc.collect()
        gc.freeze()
        gc.set_threshold(200000, 20, 100)
        with ctx.Pool(jobs) as pool:
            out = pool.map(_run, items, chunksize=max(1, min(8, len(items) // (jobs * 4) or 1)))
    for i, r in zip(items, out):
        if isinstance(r, tuple) and r and r[0] == 'ERR':
            if os.environ.get('SA_DEBUG'):
                print('ERR', i, r[2])
            yield i, None, r[2]
        else:
            yield i, r, None


def digest(program):
    h = hashlib.sha256()
    for n in sorted(program.paths):
        with open(program.paths[n], 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]
