# Stand-in for PyYAML that the analysis interprets in place of the real
# package.  The events and documents of a text come from the analyser
# (_world), which parses the text of a virtual file.
import _world
from . import events, scanner, parser, constructor, composer, reader, error
from .error import YAMLError, MarkedYAMLError, Mark


def _text(stream):
    if isinstance(stream, str):
        return stream
    return stream.read()


def _fail(kind):
    if kind == 'scanner':
        raise scanner.ScannerError('while scanning')
    if kind == 'parser':
        raise parser.ParserError('while parsing')
    if kind == 'constructor':
        raise constructor.ConstructorError('while constructing')
    if kind == 'composer':
        raise composer.ComposerError('while composing')
    if kind == 'reader':
        raise reader.ReaderError('unacceptable character')


class ScalarNode:
    id = 'scalar'

    def __init__(self, tag, value, start_mark=None, end_mark=None, style=None, comment=None, anchor=None):
        self.tag, self.value = tag, value
        self.start_mark, self.end_mark, self.style = start_mark, end_mark, style


class _Loader:
    def __init__(self, stream):
        self._events = list(_world.yaml_events(_text(stream)))
        self._pos = 0

    def get_event(self):
        if self._pos >= len(self._events):
            return None
        e = self._events[self._pos]
        self._pos += 1
        if isinstance(e, str):
            _fail(e)
        return e

    def peek_event(self):
        if self._pos >= len(self._events):
            return None
        e = self._events[self._pos]
        if isinstance(e, str):
            _fail(e)
        return e

    def check_event(self, *choices):
        e = self.peek_event()
        if e is None:
            return False
        return not choices or isinstance(e, choices)

    def dispose(self):
        pass

    def resolve(self, kind, value, implicit):
        return _world.yaml_resolve(value, implicit)

    def construct_object(self, node, deep=False):
        if isinstance(node, ScalarNode):
            return _world.yaml_scalar(node.tag, node.value)
        return _world.unknown_value()


class BaseLoader(_Loader):
    pass


class SafeLoader(_Loader):
    pass


class FullLoader(_Loader):
    pass


class Loader(_Loader):
    pass


class UnsafeLoader(_Loader):
    pass


class CSafeLoader(SafeLoader):
    pass


def parse(stream, Loader=Loader):
    out = []
    for e in _world.yaml_events(_text(stream)):
        if isinstance(e, str):
            _fail(e)
        out.append(e)
    return out


def _documents(stream, safe):
    text = _text(stream)
    _fail(_world.yaml_error(text, safe))
    return _world.yaml_documents(text, safe)


def safe_load_all(stream):
    return _documents(stream, True)


def safe_load(stream):
    d = _documents(stream, True)
    return d[0] if d else None


def load_all(stream, Loader):
    if Loader is SafeLoader or Loader is CSafeLoader or Loader is BaseLoader:
        return _documents(stream, True)
    _world.unsafe_yaml()
    return _documents(stream, False)


def load(stream, Loader):
    d = load_all(stream, Loader)
    return d[0] if d else None


def full_load_all(stream):
    _world.unsafe_yaml()
    return _documents(stream, False)


def full_load(stream):
    d = full_load_all(stream)
    return d[0] if d else None


def unsafe_load_all(stream):
    return full_load_all(stream)


def unsafe_load(stream):
    return full_load(stream)


def safe_dump(value, **options):
    return _world.yaml_dump(value, **options)


def dump(value, **options):
    return _world.yaml_dump(value, **options)
