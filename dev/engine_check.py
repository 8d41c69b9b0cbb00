"""Developer tool (not a check): compares the abstract interpreter on fully
constant definitions with the real program, to find unsound engine models."""
import copy, sys, time, glob, io
sys.path.insert(0, '/verif'); sys.path.insert(0, '/repo')
from sa.lab import *
from crazy_complete import dictionary_source, yaml_source, config, bash, fish, zsh
import yaml
L = Lab()
files = sys.argv[1:] or sorted(glob.glob('/repo/test/tests/*.yaml') + glob.glob('/repo/examples/*.yaml')+ glob.glob('/repo/completions/*/*.yaml'))
for f in files:
    try:
        dicts = [d for d in yaml.safe_load_all(open(f)) if d and 'prog' in d]
        dicts0 = copy.deepcopy(dicts); c = dictionary_source.dictionaries_to_commandline(dicts)
    except Exception as e:
        print('SKIP', f, type(e), e); continue
    for sh, m in (('bash', bash), ('fish', fish), ('zsh', zsh)):
        try:
            real = m.generate_completion(c, config.Config())
        except Exception as e:
            real = type(e).__name__
        st = L.state()
        t = time.time()
        with L.frame() as fr:
            try:
                ac = L.call(st, 'dictionary_source.dictionaries_to_commandline', L.val(st, copy.deepcopy(dicts0)))
                r = L.generate(st, sh, ac)
                ok, v = const_of(r)
                res = 'EXACT' if ok and v == real else 'WRONG' if ok else 'IMPRECISE'
            except Bottom:
                res = 'BOTTOM ' + real[:30]
        print(res, sh, f, '%.1fs' % (time.time() - t), [(str(list(e[0])[0][1])[-40:], L.p.where(e[2])) for e in fr.excs()][:3] if res != 'EXACT' else '')
        if res=='WRONG':
            open('/tmp/w.abs','w').write(v); open('/tmp/w.real','w').write(real)
print(dict((k, L.p.where(v)) for k, v in L.I.unknown_notes.items()))
