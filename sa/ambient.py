"""Two opposite worlds for everything a program may observe that is no part of
its inputs: iteration order of sets, object identities and hashes, clock, random
numbers, environment, platform.  A text that is the same in both does not depend
on any of them."""

from .engine import *
from .interp import *
from .builtins_model import const_of
from . import strings as S

NUMBERS = {
    'time.time', 'time.time_ns', 'time.monotonic', 'time.monotonic_ns', 'time.perf_counter', 'time.perf_counter_ns',
    'time.process_time', 'time.clock_gettime', 'random.random', 'random.uniform', 'random.randint', 'random.randrange',
    'random.getrandbits', 'secrets.randbelow', 'secrets.randbits', 'os.getpid', 'os.getppid', 'os.getuid', 'os.geteuid',
    'os.getgid', 'os.getegid', 'os.cpu_count', 'threading.get_ident', 'threading.get_native_id', 'gc.get_count',
    'sys.getrefcount', 'sys.getsizeof', 'builtins.id', 'builtins.hash', 'random.gauss', 'os.path.getmtime', 'os.path.getsize',
}
BOOLS = {
    'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.islink', 'os.access', 'sys.stdout.isatty', 'sys.stderr.isatty',
    'sys.stdin.isatty', 'os.isatty', 'random.getstate',
}
PREFIXES = (
    'time.', 'random.', 'uuid.', 'secrets.', 'datetime.', 'locale.', 'platform.', 'socket.', 'getpass.', 'tempfile.', 'pwd.',
    'grp.', 'threading.', 'multiprocessing.', 'calendar.', 'os.environ', 'os.getenv', 'os.uname', 'os.listdir', 'os.scandir',
    'os.walk', 'os.getcwd', 'os.getlogin', 'os.get_terminal_size', 'os.urandom', 'os.stat', 'glob.', 'shutil.which',
    'shutil.get_terminal_size', 'os.path.expanduser', 'os.path.expandvars', 'os.path.abspath', 'os.path.realpath', 'sysconfig.', 'site.',
    'gettext.', 'pathlib.Path.home', 'pathlib.Path.cwd',
) + tuple(NUMBERS) + tuple(BOOLS)
FIXED = {'time.sleep', 'datetime.timedelta', 'random.seed', 'locale.setlocale'}
VALUES = {
    'sys.platform': ('linux', 'darwin'), 'os.name': ('posix', 'nt'), 'os.linesep': ('\n', '\r\n'), 'os.sep': ('/', '\\'),
    'sys.byteorder': ('little', 'big'), 'sys.executable': ('/usr/bin/python3', '/opt/python'), 'sys.prefix': ('/usr', '/opt'),
    'sys.stdout.encoding': ('utf-8', 'ascii'), 'sys.argv': None,
}


def nondeterministic(name):
    return name not in FIXED and any(name == p or name.startswith(p) and (p[-1] == '.' or name[len(p)] == '.') for p in PREFIXES)


class Ambient:
    def __init__(self, L):
        self.L, self.I = L, L.I
        self.events = []          # (kind, place) in order
        self.world = 0
        self.seq = {}
        I = self.I
        old = I.call_ext
        hidden = {n: I.ext_models.pop(n) for n in list(I.ext_models) if n in ('os.environ.get', 'os.getenv')}

        def call_ext(name, args, kwargs, st, node):
            if nondeterministic(name) and not self.quiet(name, args):
                self.events.append((name, self.L.p.where(node) if node is not None else ''))
                v = self.value(name, args, kwargs, st, node)
                if v is not None:
                    return v
                old(name, args, kwargs, st, node)
                return unknown(frozenset([(name, 'nondet')]))
            return old(name, args, kwargs, st, node)
        I.call_ext = call_ext

        def listener(kind, st, node, info):
            if kind == 'setiter' and info['n'] > 1:
                self.events.append(('iteration over a set', self.L.p.where(node)))
        I.listeners.append(listener)
        subscript, contains = I.subscript, I.contains

        def sub(o, k, st, node):
            if o == V(('x', 'os.environ')):
                self.events.append(('os.environ', self.L.p.where(node)))
                return const('env%d' % self.world)
            return subscript(o, k, st, node)
        I.subscript = sub

        def cont(c, x, st, node=None):
            if c == V(('x', 'os.environ')):
                self.events.append(('os.environ', self.L.p.where(node) if node is not None else ''))
                return {bool(self.world)}
            return contains(c, x, st, node)
        I.contains = cont

    def quiet(self, name, args):
        return False

    def enter(self, world, st=None):
        self.world = world
        self.events = []
        self.seq = {}
        self.I.set_order = bool(world)
        for k, v in VALUES.items():
            if v:
                self.I.ext_values[k] = const(v[world])
        if st is not None:
            o = st.heap.get(('M', 'crazy_complete.messages'))
            if o is not None and 'LANG' in o.data:
                st.w(('M', 'crazy_complete.messages')).data['LANG'] = const(('en', 'de')[world])

    def leave(self):
        self.I.set_order = False
        for k in VALUES:
            self.I.ext_values.pop(k, None)

    def value(self, name, args, kw, st, node):
        w = self.world
        if name in ('builtins.id', 'builtins.hash'):
            # opposite orders: ascending in one world, descending in the other
            (v,) = args[:1] or (BOT,)
            key = repr(sorted(map(repr, v)))
            n = self.seq.setdefault(key, len(self.seq) + 1)
            return const(1000 - n if w else 1000 + n)
        if name in NUMBERS:
            n = self.seq[name] = self.seq.get(name, 0) + 1
            return const(7000003 - 11 * n if w else 3 + n)
        if name in BOOLS:
            return const(bool(w))
        if name in ('random.shuffle',):
            for a in args[0] if args else ():
                if a[0] == 'o' and st.heap[a[1]].kind == 'list' and w:
                    d = st.w(a[1])
                    d.data = tuple(d.data)[::-1]
            return NONE
        if name in ('random.choice', 'random.sample', 'random.choices', 'secrets.choice'):
            segs = list(self.I.iterate(args[0], st, node)) if args else []
            if not segs:
                return None
            segs = segs[::-1] if w else segs
            if name.endswith('.choice'):
                return segs[0][0]
            return self.I.new_list(st, node, segs)
        if name in ('os.environ.get', 'os.getenv'):
            ok, k = const_of(args[0]) if args else (False, None)
            if w:
                return const('de_DE' if ok and k in ('LANGUAGE', 'LC_ALL', 'LC_MESSAGES', 'LANG') else '1')
            return args[1] if len(args) > 1 else NONE
        if name == 'os.environ.copy' or name.startswith('os.environ.'):
            return None
        if name in ('locale.getlocale', 'locale.getdefaultlocale'):
            return V(('tup', (const(('en_US', 'de_DE')[w]), const(('UTF-8', 'ISO-8859-1')[w]))))
        if name in ('locale.getpreferredencoding', 'locale.getencoding'):
            return const(('UTF-8', 'ISO-8859-1')[w])
        if name in ('os.path.abspath', 'os.path.realpath', 'os.path.expanduser', 'os.getcwd', 'time.strftime', 'time.ctime', 'time.asctime',
                    'getpass.getuser', 'socket.gethostname', 'platform.system', 'platform.node', 'platform.platform', 'platform.release',
                    'platform.python_version', 'os.getlogin', 'tempfile.mktemp', 'tempfile.gettempdir', 'tempfile.mkdtemp', 'secrets.token_hex'):
            return const('%s in world %d' % (name, w))
        if name == 'shutil.which':
            return const('/usr/bin/x') if w else NONE
        return None
