from .error import YAMLError, MarkedYAMLError


class ParserError(MarkedYAMLError):
    pass
