"""Write DESIGN.md: the prose of tools/design/*.md around tables made from manifest_data.py and known_findings.json."""
import ast, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from manifest_data import CHECKS, NOT_APPLICABLE

props = {json.loads(l)['id']: json.loads(l) for l in open(H + '/properties.jsonl')}
kf = json.load(open(H + '/known_findings.json'))


def assumptions(pid):
    try:
        t = ast.parse(open(H + '/sa/checks/%s.py' % pid.lower()).read())
    except FileNotFoundError:
        return '', []
    doc, out = ' '.join((ast.get_docstring(t) or '').split()), []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Check':
            for k in n.keywords:
                if k.arg == 'assumptions':
                    try:
                        out = ast.literal_eval(k.value)
                    except ValueError:
                        pass
    return doc, out


out = [open(H + '/tools/design/head.md').read().rstrip(), '', '## The properties one by one', '']
for p in sorted(props):
    out += ['### %s %s' % (p, props[p]['title']), '']
    if p in NOT_APPLICABLE:
        out += ['Not applicable: ' + NOT_APPLICABLE[p], '']
        continue
    if p not in CHECKS:
        out += ['Not claimed.', '']
        continue
    tech, scope = CHECKS[p][:2]
    doc, ass = assumptions(p)
    out += ['*Method:* %s.' % tech, '', '*Rule:* ' + doc.split(': ', 1)[-1], '', '*Bounds:* ' + scope, '']
    if ass:
        out += ['*Assumptions:* ' + '; '.join(ass) + '.', '']
out += [open(H + '/tools/design/tail.md').read().rstrip(), '', '## Genuine defects repaired (`fix:` commits in /repo)', '']
out += ['* ' + str(e).replace('fixed: property=', '') for e in kf['fixed']]
out += ['', '## Genuine defects recorded as known findings', '']
seen = set()
for e in kf['findings']:
    line = '* %s %s: %s: %s' % (e['property'], e['rule'], e['construct'], e['what'])
    out.append(line)
out += ['', '## Planted bugs', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % s))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('\n', ' '), m.get('caught', m['property'])))
out += ['', 'Further changes were planted, confirmed and caught, but are not kept under seeded/ to bound the time of a full run: a command_arg after a',
        'positional without `complete` raises KeyError (C06), a value_list sorted in place (C18), a version cut to its major number (C21).',
        'Changes that the existing tests catch, or that touch lines of the fixes above, were dropped.']
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
