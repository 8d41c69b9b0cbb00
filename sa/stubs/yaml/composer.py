from .error import YAMLError, MarkedYAMLError


class ComposerError(MarkedYAMLError):
    pass
