"""Create and try a planted bug.

  seed.py new ID PROPERTY FILE  < description on stdin:
     ===OLD / ===NEW blocks (pairs, optional '===FILE path' before a pair), ===DEMO (python body run with
     /opt/venv/bin/python, cwd and sys.path[0] = /repo), ===NEEDS, ===BREAKS
  seed.py try ID [--no-tests]  apply in a scratch copy: build, tests, demo, check
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d


def new(sid, prop, file):
    text = sys.stdin.read()
    parts = re.split(r'^===(\w+)(?: (.*))?\n', text, flags=re.M)[1:]
    d = scratch()
    repo = d + '/repo'
    old = None
    demo = needs = breaks = ''
    for k, arg, body in zip(parts[0::3], parts[1::3], parts[2::3]):
        if k == 'FILE':
            file = arg.strip()
        elif k == 'OLD':
            old = body
        elif k == 'NEW':
            p = os.path.join(repo, file)
            s = open(p).read()
            assert s.count(old) == 1, ('occurrences', s.count(old), old)
            open(p, 'w').write(s.replace(old, body))
        elif k == 'DEMO':
            demo = body
        elif k == 'NEEDS':
            needs = body.strip()
        elif k == 'BREAKS':
            breaks = body.strip()
    out = os.path.join(SEED, sid)
    os.makedirs(out, exist_ok=True)
    diff = sh('git', '-C', repo, 'diff').stdout
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\n' + demo)
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
    try_(sid, False)


def try_(sid, tests, check=True):
    out = os.path.join(SEED, sid)
    prop = json.load(open(out + '/meta.json'))['property']
    d = scratch()
    repo = d + '/repo'
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    r = sh(out + '/demo.sh', cwd=repo, env=env)
    print('demo clean:', r.returncode, '' if r.returncode == 0 else r.stdout[-800:])
    a = sh('git', '-C', repo, 'apply', out + '/patch.diff')
    print('apply', a.returncode, a.stdout)
    r = sh(out + '/demo.sh', cwd=repo, env=env)
    print('demo patched:', r.returncode, r.stdout[-300:])
    if check:
        r = sh('python3', '-m', 'sa.run', prop, cwd=HERE, env=dict(os.environ, CRAZY_ROOT=repo))
        print('check %s: %d\n%s' % (prop, r.returncode, '\n'.join(l for l in r.stdout.splitlines() if 'KNOWN' not in l)[-1500:]))
    if tests:
        import fcntl
        lk = open('/tmp/seed.lock', 'w')
        fcntl.flock(lk, fcntl.LOCK_EX)
        # the test suite is tied to /repo: mount the scratch copy there, in a namespace of its own
        b = sh('unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/build.sh' % repo)
        t = sh('unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/test.sh %s/out.json' % (repo, d))
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open(d + '/out.json'))
        print('build', b.returncode, 'tests', compare(base, res))
    shutil.rmtree(d)


def compare(base, res):
    b = set(base['stable'])
    r = set(res.get('passed') or res.get('stable') or [])
    miss = b - r
    return '%d of %d pass %s' % (len(b & r), len(b), sorted(miss)[:5])


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(*sys.argv[2:5])
    else:
        for i in [a for a in sys.argv[2:] if a[0] != '-']:
            print('==', i)
            try_(i, '--no-tests' not in sys.argv, '--no-check' not in sys.argv)
            sys.stdout.flush()
