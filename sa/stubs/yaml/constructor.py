from .error import YAMLError, MarkedYAMLError


class ConstructorError(MarkedYAMLError):
    pass
