"""Runs of the whole program, shared by the checks about its surroundings."""

import itertools
import json

from .vlab import base
from .world import World, Run

GOOD_YAML = '''prog: prog
help: Some text
options:
  - option_strings: ["--foo", "-f"]
    help: "Hello"
    complete: ["choices", [a, 2]]
    when: has_option --bar
  - option_strings: ["--bar"]
    repeatable: true
positionals:
  - number: 1
    complete: ["list", ["file"]]
---
prog: prog sub
aliases: [s2]
positionals:
  - number: 1
    repeatable: true
    complete: ["directory"]
'''
GOOD = [{'prog': 'prog', 'options': [{'option_strings': ['--foo', '-f'], 'help': 'Hello', 'complete': ['choices', ['a', 2]],
                                      'when': 'has_option --bar'},
                                     {'option_strings': ['--bar'], 'repeatable': True}],
         'positionals': [{'number': 1, 'complete': ['list', ['file']]}]},
        {'prog': 'prog sub', 'aliases': ['s2'], 'positionals': [{'number': 1, 'repeatable': True, 'complete': ['directory']}]}]
GOOD_PY = '''import argparse
parser = argparse.ArgumentParser('prog', description='Some text')
parser.add_argument('--foo', '-f', help='Hello', choices=['a', 'b'])
parser.add_argument('--bar', action='store_true')
parser.add_argument('file')
'''
HELP = '''Usage: prog [OPTIONS]

  -a, --all            show all
  -o, --output=FILE    write to FILE
'''
FILES = {
    'd.yaml': GOOD_YAML, 'd.yml': GOOD_YAML, 'd.YAML': GOOD_YAML, 'd.json': json.dumps(GOOD), 'd.txt': GOOD_YAML,
    'noext': GOOD_YAML, 'j.txt': json.dumps(GOOD), 'dir/d.json': json.dumps(GOOD), 'p.py': GOOD_PY, 'p.txt': GOOD_PY, 'help.txt': HELP,
    'inc': '# included\nINC=1\n', 'old': 'previous content',
    # broken input
    'scan.yaml': 'a: "b', 'parse.yaml': 'a: [', 'alias.yaml': 'a: *x', 'char.yaml': 'a: \x01', 'tag.yaml': '!!python/object:os.system x',
    'pytag.yaml': 'prog: !!python/object/apply:os.system [x]', 'local.yaml': 'prog: !foo x', 'bool.yaml': 'prog: !!bool x',
    'int.yaml': 'prog: !!int x', 'float.yaml': 'prog: !!float x', 'time.yaml': 'prog: !!timestamp x', 'date.yaml': 'prog: 2001-99-99',
    'binary.yaml': 'prog: !!binary "x"', 'key.yaml': '? [a]\n: 1', 'mapkey.yaml': '? {a: 1}\n: 1', 'merge.yaml': '<<: 1',
    'omap.yaml': 'prog: !!omap [a]', 'anchor.yaml': 'prog: &a x\naliases: [*a]', 'empty.yaml': '', 'list.yaml': '- a', 'scalar.yaml': 'a',
    'null.yaml': '---\n---\n', 'dup.yaml': 'prog: a\nfoo: b\n', 'tab.yaml': 'prog:\n\t- a', 'second.yaml': 'prog: a\n---\nb: [',
    'noprog.yaml': 'help: x', 'number.yaml': 'prog: 1', 'unknown.yaml': 'prog: a\nfoo: 1', 'completer.yaml':
    'prog: a\noptions:\n - option_strings: [-a]\n   complete: [foo]\n', 'when.yaml':
    'prog: a\noptions:\n - option_strings: [-a]\n   when: foo\n', 'group.yaml':
    'prog: a\noptions:\n - option_strings: [-a]\n   groups: x\n',
    'dates.yaml': 'prog: p\noptions:\n  - option_strings: ["-a"]\n    complete: [choices, [2020-01-01]]\n',
    'binaries.yaml': 'prog: p\noptions:\n  - option_strings: ["-a"]\n    complete: [choices, [!!binary aGFsbG8=]]\n',
    'cut.json': '[{', 'empty.json': '', 'none.json': '[]', 'dict.json': '{"prog": "a"}', 'number.json': '5', 'null.json': 'null',
    'str.json': '"a"', 'inner.json': '[5]', 'noprog.json': '[{"help": "x"}]', 'unknown.json': '[{"prog": "a", "foo": 1}]',
    'completer.json': '[{"prog": "a", "options": [{"option_strings": ["-a"], "complete": ["foo"]}]}]',
    'when.json': '[{"prog": "a", "options": [{"option_strings": ["-a"], "when": "foo"}]}]',
    'hidden.json': '[{"prog": "a", "options": [{"option_strings": ["-a"], "hidden": true, "repeatable": true}]}]',
    'parent.json': '[{"prog": "a"}, {"prog": "a b c"}]', 'trail.json': '[{"prog": "a"}] x',
    'isdir.yaml': IsADirectoryError(), 'isdir.json': IsADirectoryError(), 'perm.yaml': PermissionError(), 'perm.json': PermissionError(),
    'bytes.yaml': UnicodeDecodeError('utf-8', b'', 0, 1, ''), 'bytes.json': UnicodeDecodeError('utf-8', b'', 0, 1, ''),
    'bytes.txt': UnicodeDecodeError('utf-8', b'', 0, 1, ''), 'perm.txt': PermissionError(), 'isdir.py': IsADirectoryError(),
    'nothing.py': 'x = 1', 'two.py': GOOD_PY + "other = argparse.ArgumentParser('x')\n", 'syntax.py': 'x y', 'syntax.txt': 'x y',
    'raise.py': 'raise ValueError()', 'noteparser.py': 'parser = 5',
    'batch.ok': '# comment\n\nbash d.json -o out\n', 'batch.bad': 'bash d.json -o out\nbash cut.json -o out2\n',
    'batch.quote': 'bash "d.json', 'batch.use': 'foo d.json', 'batch.perm': PermissionError(),
}
YAML_BAD = [f for f in FILES if f.endswith('.yaml') and f not in ('d.yaml',)]
JSON_BAD = [f for f in FILES if f.endswith('.json') and f not in ('d.json', 'dir/d.json')]
# found when the scripts for the shells are generated, not when the file is read
LATE = {'when.json', 'hidden.json', 'completer.json'}
OUT = ('bash', 'fish', 'zsh', 'json', 'yaml')
SH = ('bash', 'fish', 'zsh')


def destinations(sh):
    d = [(), ('-o', 'old'), ('-o', 'new')]
    if sh in SH:
        d += [('-i',), ('-u',)]
    return d


def bad_inputs():
    """[(words of the input, file, late)] that are predictable errors."""
    for f in YAML_BAD + JSON_BAD:
        yield [f], f in LATE
        if f.endswith('.json') or f.endswith('.yaml'):
            yield [f, '--input-type', f[-4:]], f in LATE
    for f in ('nofile.yaml', 'nofile.json', 'nofile.yml', 'nodir/x.json'):
        yield [f], False
    for t in ('yaml', 'json', 'python'):
        yield ['nofile', '--input-type=' + t], False
    yield ['noext'], False
    yield ['d.txt'], False
    yield ['p.py'], False
    yield ['noext', '--input-type=json'], False
    yield ['bytes.txt', '--input-type=yaml'], False
    yield ['bytes.txt', '--input-type=json'], False
    yield ['perm.txt', '--input-type=yaml'], False
    yield ['perm.txt', '--input-type=json'], False
    for f in ('nothing.py', 'raise.py', 'two.py', 'syntax.py', 'syntax.txt', 'isdir.py', 'nofile.py', 'perm.txt'):
        yield [f, '--input-type=python'], False
    for v in ('nothing', 'argparse'):
        yield ['p.py', '--input-type=python', '--parser-variable', v], False
    yield ['noteparser.py', '--input-type=python', '--parser-variable', 'parser'], False
    yield ['d.json', '--include-file', 'nofile'], True
    yield ['d.json', '--include-file', 'inc', '--include-file', 'nofile'], True
    yield ['d.json', '--include-file', 'perm.txt'], True
    yield ['d.json', '--include-file', 'bytes.txt'], True


def failing():
    """[(argv)] of runs that fail on their input."""
    n = 0
    for words, late in bad_inputs():
        for sh in OUT:
            if late and sh not in SH:
                continue
            for dest in destinations(sh):
                yield [sh] + words + list(dest)
    for sh in SH + ('json',):
        for dest in destinations(sh):
            yield [sh, 'help.txt', '--input-type=help'] + list(dest)
    for f in ('nofile', 'bytes.txt', 'perm.txt'):
        for dest in destinations('yaml'):
            yield ['yaml', f, '--input-type=help'] + list(dest)


def batches():
    """[(argv, status)]"""
    for f, s in (('batch.ok', 0), ('batch.bad', 1), ('batch.quote', 1), ('batch.use', 2), ('batch.perm', 1), ('nofile', 1)):
        yield ['--batch', f], s
        yield ['--batch=' + f], s


def misuse():
    """Command lines that are wrong."""
    G = ['bash', 'd.json']
    yield []
    yield ['bash']
    yield ['d.json']
    yield ['foo', 'd.json']
    yield ['Bash', 'd.json']
    yield ['', 'd.json']
    yield G + ['extra']
    yield G + ['--foo']
    yield G + ['--foo=bar']
    yield G + ['-x']
    yield G + ['-o']
    for o in ('--abbreviate-commands', '--abbreviate-options', '--repeatable-options', '--inherit-options', '--option-stacking',
              '--vim-modeline', '--zsh-compdef', '--fish-inline-conditions'):
        yield G + [o]
        yield G + [o, 'maybe']
        yield G + [o, '']
        yield G + [o + '=1']
    for o in ('--long-option-argument-separator', '--disable', '--max-line-length', '--bash-completions-version', '--input-type'):
        yield G + [o]
        yield G + [o, 'foo']
        yield G + [o, '']
    yield G + ['--disable', 'hidden,foo']
    yield G + ['--disable', 'hidden,']
    yield G + ['--max-line-length', '1.5']
    yield G + ['--bash-completions-version', '2.x']
    yield G + ['--bash-completions-version', '2..1']
    for o in ('--include-file', '--comment', '--function-prefix', '--output', '--parser-variable'):
        yield G + [o]
    for a, b in itertools.permutations((['-o', 'new'], ['-i'], ['-u']), 2):
        yield G + a + b
    yield ['--batch']
    yield G + ['--batch']


def good_inputs():
    for f in ('d.yaml', 'd.yml', 'd.YAML', 'd.json', 'dir/d.json'):
        yield [f]
    for f in ('d.txt', 'noext', 'd.yaml'):
        yield [f, '--input-type=yaml']
    for f in ('j.txt', 'd.json'):
        yield [f, '--input-type', 'json']
    yield ['p.py', '--input-type=python']
    yield ['p.txt', '--input-type=python']
    yield ['p.py', '--input-type=python', '--parser-variable=parser']
    yield ['d.json', '--include-file', 'inc']
    yield ['d.json', '--debug']


def working():
    for w in good_inputs():
        for sh in OUT:
            for dest in destinations(sh):
                if dest != ('-u',):
                    yield [sh] + w + list(dest)
    for dest in destinations('yaml'):
        yield ['yaml', 'help.txt', '--input-type=help'] + list(dest)


INFO = (['--version'], ['-h'], ['--help'], ['--manual'], ['--manual', 'file'], ['bash', '--version'], ['--manual=choices'])


def malformed(lab, tier):
    """[(key, definitions, found when the file is read?)] of the definitions
    with a mistake that C05 examines."""
    from .checks import c05
    out = []

    def judge(rule, key, defs, routes=(None, c05.via_json), where=None):
        out.append((key, defs, c05.via_json in routes))
        return []
    saved, c05.judge = c05.judge, judge
    via, c05.via_validator = c05.via_validator, lambda lab, defs: None
    c05.L = lab

    class O:
        normal, excs, text = True, (), ''
    c05.via_validator = lambda lab, defs: O
    try:
        for item in c05.all_items(tier):
            c05.run(item)
    finally:
        c05.judge, c05.via_validator = saved, via
    seen, r = set(), []
    for k, d, j in out:
        t = repr(d)
        if t not in seen:
            seen.add(t)
            r.append((k, d, j))
    return r


def as_yaml(defs):
    return '\n---\n'.join(json.dumps(d) for d in defs)


def writes(run):
    """Events by which a run changes files, except for its temporaries."""
    out = []
    for e in run.events:
        if e.kind == 'open' and e.mode is not None and e.path != '/dev/null' and set(e.mode) & set('wax+'):
            out.append(e)
        elif e.kind == 'open' and e.mode is None:
            out.append(e)
        elif e.kind == 'touch' and not e.name.startswith('tempfile.'):
            out.append(e)
        elif e.kind == 'write' and e.path != '/dev/null':
            out.append(e)
    return out
