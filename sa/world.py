"""The program together with its surroundings: stand-ins for argparse and
PyYAML that are interpreted like the program itself, and a virtual file system
whose files have exact (possibly symbolic) texts.  What the program does to its
surroundings is recorded in order."""

import ast
import builtins
import json
import os
import posixpath
import shlex

import yaml as pyyaml

from . import strings as S
from .builtins_model import to_python, from_python
from .engine import *
from .lab import *
from .defs import to_dict
from .vlab import Lab2

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')

READ_METHODS = ('read', 'readline', 'readlines', '__enter__', '__exit__', '__iter__', 'close', 'flush', 'fileno',
                'isatty', 'seek', 'tell')
# external functions that change the file system, run code or start processes
TOUCH = {'os.remove', 'os.unlink', 'os.rename', 'os.renames', 'os.replace', 'os.rmdir', 'os.removedirs', 'os.truncate',
         'os.mkdir', 'os.makedirs', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.open', 'os.fdopen', 'os.write',
         'io.open', 'io.FileIO', 'codecs.open', 'pathlib.Path', 'os.mkfifo', 'os.utime', 'os.ftruncate'}
TOUCH_PREFIX = ('shutil.', 'tempfile.')
RUN = {'os.system', 'os.popen', 'os.startfile', 'pty.spawn', 'builtins.exec', 'builtins.eval', 'builtins.compile',
       'builtins.__import__', 'importlib.import_module', 'importlib.__import__', 'runpy.run_path', 'runpy.run_module',
       'pickle.load', 'pickle.loads', 'marshal.loads', 'marshal.load', 'shelve.open', 'imp.load_source',
       'importlib.util.spec_from_file_location', 'importlib.util.module_from_spec', 'importlib.reload',
       'importlib.machinery.SourceFileLoader', 'code.interact', 'builtins.execfile', 'ctypes.CDLL', 'timeit.timeit'}
RUN_PREFIX = ('subprocess.', 'os.exec', 'os.spawn', 'os.posix_spawn', 'multiprocessing.', 'asyncio.create_subprocess')


class Event:
    def __init__(self, kind, node, where, **info):
        self.kind, self.node, self.where = kind, node, where
        self.__dict__.update(info)

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, {k: v for k, v in self.__dict__.items() if k not in ('kind', 'node', 'where')},
                               self.where)


class World(Lab2):
    def __init__(self, root='/repo', lang='en', **kw):
        self.lang = lang
        self.files = {}
        self.events = []
        self.und0 = 0
        self.trace_calls = False                 # record the calls made after a file was opened for writing
        self.process = (0, '/pkgdir\n', '')      # outcome of the processes that are started
        super().__init__(root, **kw)
        self.install()

    def extend_program(self):
        p = self.p
        self.stubs = set()
        for dirpath, dirs, names in os.walk(STUBS):
            dirs[:] = [d for d in dirs if d.isidentifier() and d != '__pycache__']
            for n in sorted(names):
                if n.endswith('.py'):
                    path = os.path.join(dirpath, n)
                    mod = os.path.relpath(path, STUBS)[:-3].replace(os.sep, '.')
                    mod = mod[:-9] if mod.endswith('.__init__') else mod
                    p.add(mod, path)
                    self.stubs.add(mod)

    def prepare(self):
        self.I.stub_modules = self.stubs
        def get(I, args, kw, st, node):
            ok, n = const_of(args[0]) if args and not isinstance(args[0], tuple) else (False, None)
            if ok and n in ('LANGUAGE', 'LC_ALL', 'LC_MESSAGES', 'LANG'):
                return const(self.lang)
            return None
        if self.lang:
            self.I.ext_models['os.environ.get'] = self.I.ext_models['os.getenv'] = get

    # ------------------------------------------------------------ events

    def rec(self, kind, node, **info):
        f = [q for q, n in self.I.stack()]
        self.events.append(Event(kind, node, self.p.where(node), stack=f, may=self.I.undecided > self.und0, **info))

    def reset(self, files=None):
        self.I.steps = 0
        self.events = []
        self.und0 = self.I.undecided
        self.files = dict(files or {})

    # ------------------------------------------------------------ models

    def install(self):
        I = self.I
        E = I.ext_models
        old_method = I.call_builtin_method

        def text(v):
            """Encoded exact text of a value, or None."""
            ss = [a for a in v]
            if len(ss) == 1 and ss[0][0] == 's':
                return S.encode(ss[0][1])
            return None
        self.text_of = text

        def open_(I, args, kw, st, node):
            av = [a[1] if isinstance(a, tuple) else a for a in args]
            names = ('file', 'mode', 'buffering', 'encoding', 'errors', 'newline')
            for i, a in enumerate(av):
                kw = dict(kw, **{names[i]: a})
            mode = const('r') if 'mode' not in kw else kw['mode']
            okm, m = const_of(mode)
            path = text(kw.get('file', BOT))
            enc = kw.get('encoding')
            okn, e = const_of(enc) if enc is not None else (True, None)
            self.rec('open', node, path=path, mode=m if okm else None, encoding=e if okn else '?', errors='errors' in kw)
            reading = okm and 'w' not in m and 'a' not in m and 'x' not in m
            if reading and path is not None and self.files:
                if path not in self.files:
                    I.raise_exc(V(('xi', 'builtins.FileNotFoundError')), st, node)
                    raise Bottom()
                err = self.files[path]
                if isinstance(err, OSError):
                    I.raise_exc(V(('xi', 'builtins.' + type(err).__name__)), st, node)
                    raise Bottom()
            elif self.files.get(path) is None or not isinstance(self.files.get(path), str):
                err = self.files.get(path)
                if isinstance(err, Exception):
                    I.raise_exc(V(('xi', 'builtins.' + type(err).__name__)), st, node)
                    raise Bottom()
                if not self.files:
                    I.raise_exc(V(('xi', 'builtins.FileNotFoundError')), st, node, may=True)
            return V(('file', id(node), path, m if okm else None))
        E['builtins.open'] = E['io.open'] = E['codecs.open'] = open_

        def method(recv, name, args, kwargs, st, node):
            if recv[0] == 'file' and len(recv) > 2:
                path = recv[2]
                if name in ('write', 'writelines', 'truncate'):
                    v = args[0] if args else BOT
                    self.rec('write', node, path=path, name=name, value=v,
                             text=text(v[1] if isinstance(v, tuple) else v))
                    return INT
                t = self.files.get(path)
                if isinstance(t, Exception) and recv[3] and 'w' not in recv[3] and name not in ('__enter__', '__exit__', 'close'):
                    I.raise_exc(V(('xi', 'builtins.' + type(t).__name__)), st, node)
                    raise Bottom()
                if isinstance(t, str):
                    if name == 'read' and not args:
                        return string(S.decode(t))
                    if name == 'readlines':
                        return I.new_list(st, node, [(string(S.decode(l)), 1) for l in t.splitlines(True)])
            if name == 'encode' and recv[0] == 's':
                self.rec('encode', node, text=S.encode(recv[1]))
            return old_method(recv, name, args, kwargs, st, node)
        I.call_builtin_method = method

        def print_(I, args, kw, st, node):
            out = []
            for a in args:
                out.append(text(a) if not isinstance(a, tuple) else None)
            self.rec('print', node, texts=out, to=kw.get('file'), end=kw.get('end'))
            return const(None)
        E['builtins.print'] = print_

        def listener(kind, st, node, info):
            if kind == 'ext':
                n = info['name']
                if n.startswith('pathlib.Path'):
                    self.rec('touch', node, name=n, args=info['args'], kwargs=info['kwargs'])
                elif n in TOUCH or n.startswith(TOUCH_PREFIX):
                    self.rec('touch', node, name=n, args=info['args'], kwargs=info['kwargs'])
                elif n in RUN or n.startswith(RUN_PREFIX):
                    self.rec('run', node, name=n, args=info['args'], kwargs=info['kwargs'])
                elif n.startswith('traceback.'):
                    self.rec('traceback', node, name=n)
            elif kind == 'call':
                if self.trace_calls:
                    self.rec('call', node, func=info['func'].qualname)
            elif kind == 'exit':
                self.rec('exit', node, args=info['args'])
            elif kind == 'extwrite':
                self.rec('extwrite', node, target=info['target'])
        I.listeners.append(listener)

        # exact path functions on known paths
        def path_fn(name, fn, old):
            def f(I, args, kw, st, node):
                if len(args) == 1 and not isinstance(args[0], tuple):
                    t = text(args[0])
                    if t is not None:
                        r = fn(t)
                        if isinstance(r, tuple):
                            return V(('tup', tuple(string(S.decode(x)) for x in r)))
                        return string(S.decode(r))
                return old(I, args, kw, st, node) if old else None
            E['os.path.' + name] = f
        for n in ('basename', 'dirname', 'normpath', 'splitext', 'split'):
            path_fn(n, getattr(posixpath, n), E.get('os.path.' + n))

        old_split = E.get('shlex.split')

        def shsplit(I, args, kw, st, node):
            t = text(args[0]) if args and not isinstance(args[0], tuple) else None
            if t is not None and not kw and len(args) == 1:
                try:
                    return I.new_list(st, node, [(string(S.decode(x)), 1) for x in shlex.split(t)])
                except ValueError:
                    I.raise_exc(V(('xi', 'builtins.ValueError')), st, node)
                    raise Bottom()
            return old_split(I, args, kw, st, node)
        E['shlex.split'] = shsplit

        def loads(I, v, st, node):
            t = text(v)
            if t is None:
                I.raise_exc(V(('xi', 'json.decoder.JSONDecodeError')), st, node, may=True)
                return UNKNOWN
            try:
                x = json.loads(t)
            except ValueError:
                I.raise_exc(V(('xi', 'json.decoder.JSONDecodeError')), st, node)
                raise Bottom()
            return self.lift(st, x)

        def json_loads(I, args, kw, st, node):
            if kw or len(args) != 1:
                return UNKNOWN
            return loads(I, args[0], st, node)

        def json_load(I, args, kw, st, node):
            if kw or len(args) != 1:
                return UNKNOWN
            return loads(I, I.call_method(args[0], 'read', [], {}, st, node), st, node)
        E['json.loads'], E['json.load'] = json_loads, json_load

        def run(I, args, kw, st, node):
            if self.process is None:
                I.raise_exc(V(('xi', 'builtins.FileNotFoundError')), st, node)
                raise Bottom()
            rc, out, err = self.process
            (k,) = I.resolve(self.base, '_proc.CompletedProcess')
            return I.call(V(k), [const(rc), const(out), const(err)], {}, st, node)
        E['subprocess.run'] = run

        def remove(I, args, kw, st, node):
            t = text(args[0]) if args and not isinstance(args[0], tuple) else None
            if t is not None and t not in self.files:
                I.raise_exc(V(('xi', 'builtins.FileNotFoundError')), st, node)
                raise Bottom()
            return const(None)
        E['os.remove'] = E['os.unlink'] = remove
        E['os.isatty'] = lambda I, args, kw, st, node: BOOL
        E['sys.stdout.fileno'] = E['sys.stderr.fileno'] = lambda I, args, kw, st, node: const(1)

        def import_module(I, args, kw, st, node):
            """A virtual Python file is interpreted."""
            t = text(args[0]) if args and not isinstance(args[0], tuple) else None
            if t is None:
                return None
            src = self.files.get(t + '.py')
            if not isinstance(src, str):
                I.raise_exc(V(('xi', 'builtins.ModuleNotFoundError')), st, node)
                raise Bottom()
            try:
                tree = ast.parse(src)
            except SyntaxError:
                I.raise_exc(V(('xi', 'builtins.SyntaxError')), st, node)
                raise Bottom()
            for n in ast.walk(tree):
                n.mod = t
            self.p.modules[t], self.p.paths[t] = tree, t + '.py'
            try:
                I.load_module(t, st)
            except AnalysisBroken:
                st.heap.pop(('M', t), None)
                raise Bottom()
            finally:
                del self.p.modules[t]
            return V(('mod', t))
        E['importlib.import_module'] = import_module

        def compile_(I, args, kw, st, node):
            t = text(args[0]) if args and not isinstance(args[0], tuple) else None
            try:
                ast.parse(t or '')
            except SyntaxError:
                I.raise_exc(V(('xi', 'builtins.SyntaxError')), st, node)
                raise Bottom()
            return UNKNOWN
        E['builtins.compile'] = compile_
        E['builtins.exec'] = lambda I, args, kw, st, node: const(None)

        old_dir = E.get('builtins.dir')

        def dir_(I, args, kw, st, node):
            if len(args) == 1 and len(args[0]) == 1:
                (a,) = args[0]
                if a == ('x', '__main__'):
                    return I.new_list(st, node, [])
                o = st.heap.get(('M', a[1])) if a[0] == 'mod' else None
                if o is not None:
                    return I.new_list(st, node, [(const(n), 1) for n in sorted(o.data)])
            return old_dir(I, args, kw, st, node) if old_dir else None
        E['builtins.dir'] = dir_

        def temp(I, args, kw, st, node):
            (k,) = I.resolve(self.base, '_proc.TempFile')
            return I.call(V(k), [const('/tmp/temporary.py')], {}, st, node)
        E['tempfile.NamedTemporaryFile'] = E['tempfile.TemporaryFile'] = temp

        def temp_write(I, args, kw, st, node):
            self.files = dict(self.files, **{'temporary.py': text(args[0])})
            return const(None)
        E['_world.temp_write'] = temp_write
        E['traceback.print_exc'] = lambda I, args, kw, st, node: const(None)

        # ---- the YAML stand-in
        def yaml_events(I, args, kw, st, node):
            t = text(args[0])
            if t is None:
                return UNKNOWN
            out = []
            try:
                for e in pyyaml.parse(t, Loader=pyyaml.Loader):
                    out.append(self.event_value(st, e))
            except pyyaml.YAMLError as e:
                out.append(const(kind_of(e)))
            return I.new_list(st, node, [(x, 1) for x in out])

        def documents(t):
            return list(pyyaml.safe_load_all(t))

        def yaml_error(I, args, kw, st, node):
            t = text(args[0])
            if t is None:
                for k in ('scanner.ScannerError', 'parser.ParserError', 'constructor.ConstructorError',
                          'composer.ComposerError', 'reader.ReaderError'):
                    self.may_raise(st, node, 'yaml.' + k)
                return const(None)
            try:
                documents(t)
            except pyyaml.YAMLError as e:
                return const(kind_of(e))
            except (ValueError, TypeError, KeyError, AttributeError) as e:
                n = next(n for n in ('KeyError', 'AttributeError', 'TypeError', 'ValueError')
                         if isinstance(e, getattr(builtins, n)))
                I.raise_exc(V(('xi', 'builtins.' + n)), st, node)
                raise Bottom()
            return const(None)

        def yaml_documents(I, args, kw, st, node):
            t = text(args[0])
            if t is None:
                return UNKNOWN
            return self.lift(st, documents(t))

        def yaml_resolve(I, args, kw, st, node):
            t = text(args[0])
            imp = to_python(args[1], st)
            if not imp[0]:
                return const('tag:yaml.org,2002:str')
            if t is None:
                return UNKNOWN
            return const(pyyaml.SafeLoader('').resolve(pyyaml.ScalarNode, t, tuple(imp)))

        def yaml_scalar(I, args, kw, st, node):
            ok, tag = const_of(args[0])
            t = text(args[1])
            if not ok or t is None:
                return UNKNOWN
            if tag == 'tag:yaml.org,2002:str':
                return args[1]
            try:
                return self.lift(st, pyyaml.SafeLoader('').construct_object(pyyaml.ScalarNode(tag, t)))
            except pyyaml.YAMLError as e:
                self.may_raise(st, node, 'yaml.constructor.ConstructorError')
                return UNKNOWN
            except (ValueError, TypeError, KeyError, AttributeError) as e:
                I.raise_exc(V(('xi', 'builtins.ValueError')), st, node)
                raise Bottom()

        def yaml_dump(I, args, kw, st, node):
            ok, x = const_of(args[0])
            if ok and not kw and isinstance(x, (int, float, bool)):
                return const(pyyaml.safe_dump(x))
            return string(S.any_())
        E['_world.yaml_resolve'], E['_world.yaml_scalar'], E['_world.yaml_dump'] = yaml_resolve, yaml_scalar, yaml_dump

        def unsafe(I, args, kw, st, node):
            caller = next((n for q, n in reversed(I.stack()) if not q.startswith('yaml')), node)
            self.rec('unsafe_yaml', caller)
            return const(None)
        E['_world.yaml_events'], E['_world.yaml_error'] = yaml_events, yaml_error
        E['_world.yaml_documents'], E['_world.unsafe_yaml'] = yaml_documents, unsafe

    def exceptions(self, fr):
        """[(class name, only possible?, where)] of the exceptions leaving a frame."""
        out = []
        for e in fr.excs():
            for a in e[0]:
                if a[0] == 'o':
                    cls = e[1].heap[a[1]].cls
                    name = getattr(cls, 'name', str(cls))
                else:
                    name = str(a[1] if len(a) > 1 else a[0])
                out.append((name.replace('builtins.', ''), bool(e[4]), self.p.where(e[2])))
        return out

    def may_raise(self, st, node, dotted):
        v = self.I.resolve(self.base, dotted)
        (k,) = v
        x = self.I.call(v, [const('?')], {}, st, node)
        self.I.raise_exc(x, st, node, may=True)

    def lift(self, st, x):
        """Python data with encoded texts -> abstract value."""
        if isinstance(x, str):
            return string(S.decode(x))
        if isinstance(x, list):
            return self.I.new_list(st, self.node(), [(self.lift(st, e), 1) for e in x])
        if isinstance(x, dict):
            d = {}
            for k, v in x.items():
                (ka,) = self.lift(st, k)
                d[ka] = (self.lift(st, v), True)
            return self.I.new_dict(st, self.node(), d)
        if x is None or isinstance(x, (bool, int, float)):
            return const(x)
        return UNKNOWN

    def event_value(self, st, e):
        n = type(e).__name__
        cls = self.I.resolve(self.base, 'yaml.events.' + n)
        mark = lambda m: NONE if m is None else self.call(
            st, self.I.resolve(self.base, 'yaml.error.Mark'), const(m.line), const(m.column))
        a = []
        if n == 'StreamStartEvent':
            a = [NONE]
        elif n in ('DocumentStartEvent', 'DocumentEndEvent'):
            a = [const(bool(e.explicit))]
        elif n == 'AliasEvent':
            a = [const(e.anchor)]
        elif n == 'ScalarEvent':
            a = [const(e.anchor), const(e.tag), V(('tup', tuple(const(bool(x)) for x in e.implicit))),
                 string(S.decode(e.value)), const(e.style)]
        elif n in ('SequenceStartEvent', 'MappingStartEvent'):
            a = [const(e.anchor), const(e.tag), const(bool(e.implicit))]
        return self.call(st, cls, *(a + [mark(e.start_mark), mark(e.end_mark)]))

    # ------------------------------------------------------- entry points

    def json_text(self, tree):
        """JSON text of a definition Tree."""
        return json.dumps(encoded(to_dict(tree)), ensure_ascii=False)

    def outputs(self):
        """[(destination path or None for stdout, text)] of the events."""
        out = []
        for e in self.events:
            if e.kind == 'write':
                out.append((e.path, e.text))
            elif e.kind == 'print' and e.to is None:
                out.append((None, e.texts[0] if len(e.texts) == 1 else None))
        return out

    def surroundings(self, st, argv):
        self.I.ext_values['sys.argv'] = self.val(st, ['crazy-complete'] + list(argv))
        self.I.ext_values['sys.path'] = self.val(st, ['/usr/lib/python'])
        self.I.ext_values['os.devnull'] = const('/dev/null')

    def app(self, st, argv):
        """Application().parse_args(argv); returns the application object."""
        a = self.call(st, 'application.Application')
        self.meth(st, a, 'parse_args', self.val(st, list(argv)))
        return a

    def run_app(self, st, argv):
        self.surroundings(st, argv)
        a = self.app(st, argv)
        self.meth(st, a, 'run')
        return a

    def script(self):
        """Parse the start script of the repository as module __main__."""
        path = os.path.join(self.p.root, 'crazy-complete')
        with open(path, encoding='utf-8') as fh:
            tree = ast.parse(fh.read(), path)
        for n in ast.walk(tree):
            n.mod = '__main__'
        self.p.modules['__main__'] = tree
        self.p.paths['__main__'] = path

    def run_script(self, st, argv):
        if '__main__' not in self.p.modules:
            self.script()
        self.surroundings(st, argv)
        self.I.load_module('__main__', st)


class Run:
    """What an interpreted run of the start script did."""

    def __init__(self, world, argv, files, script=True):
        W = self.world = world
        self.argv = list(argv)
        W.reset(files)
        st = W.state()
        self.broken = None
        with W.frame() as fr:
            try:
                (W.run_script if script else W.run_app)(st, argv)
                self.normal = True
            except Bottom:
                self.normal = False
            except AnalysisBroken as e:
                self.normal, self.broken = False, str(e)
            xs = W.exceptions(fr)
        self.events = W.events
        self.exact = W.I.undecided == W.und0 and not self.broken
        # (name, certain?) of exceptions that end the program with a traceback
        self.excs = [(n, t, w) for n, t, w in xs if n not in ('SystemExit',)]
        self.exits = [e for e in self.events if e.kind == 'exit']

    def kinds(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def statuses(self):
        out = set()
        for e in self.exits:
            ok, v = const_of(e.args[0]) if e.args else (True, None)
            out.add('?' if not ok else 0 if v is None else v if isinstance(v, int) else 1)
        if any(n == 'SystemExit' for n, t, w in self.excs) and not self.exits:
            out.add('?')
        if self.excs:
            out.add('traceback')
        if self.normal:
            out.add(0)
        return out


def encoded(x):
    if isinstance(x, S.S):
        return S.encode(x)
    if isinstance(x, list):
        return [encoded(e) for e in x]
    if isinstance(x, dict):
        return {encoded(k): encoded(v) for k, v in x.items()}
    return x


def kind_of(e):
    return {'ScannerError': 'scanner', 'ParserError': 'parser', 'ConstructorError': 'constructor',
            'ComposerError': 'composer', 'ReaderError': 'reader'}.get(type(e).__name__, 'parser')
