from .error import YAMLError, MarkedYAMLError


class ScannerError(MarkedYAMLError):
    pass
