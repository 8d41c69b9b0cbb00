from .error import YAMLError, MarkedYAMLError


class ReaderError(YAMLError):
    pass
