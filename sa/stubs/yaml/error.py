class Mark:
    def __init__(self, line, column):
        self.line = line
        self.column = column


class YAMLError(Exception):
    pass


class MarkedYAMLError(YAMLError):
    def __init__(self, context=None):
        self.context = context
