class Event:
    pass


class NodeEvent(Event):
    pass


class CollectionStartEvent(NodeEvent):
    pass


class CollectionEndEvent(Event):
    pass


class StreamStartEvent(Event):
    def __init__(self, encoding, start_mark, end_mark):
        self.encoding = encoding
        self.start_mark = start_mark
        self.end_mark = end_mark


class StreamEndEvent(Event):
    def __init__(self, start_mark, end_mark):
        self.start_mark = start_mark
        self.end_mark = end_mark


class DocumentStartEvent(Event):
    def __init__(self, explicit, start_mark, end_mark):
        self.explicit = explicit
        self.start_mark = start_mark
        self.end_mark = end_mark


class DocumentEndEvent(Event):
    def __init__(self, explicit, start_mark, end_mark):
        self.explicit = explicit
        self.start_mark = start_mark
        self.end_mark = end_mark


class AliasEvent(NodeEvent):
    def __init__(self, anchor, start_mark, end_mark):
        self.anchor = anchor
        self.start_mark = start_mark
        self.end_mark = end_mark


class ScalarEvent(NodeEvent):
    def __init__(self, anchor, tag, implicit, value, style, start_mark, end_mark):
        self.anchor = anchor
        self.tag = tag
        self.implicit = implicit
        self.value = value
        self.style = style
        self.start_mark = start_mark
        self.end_mark = end_mark


class SequenceStartEvent(CollectionStartEvent):
    def __init__(self, anchor, tag, implicit, start_mark, end_mark):
        self.anchor = anchor
        self.tag = tag
        self.implicit = implicit
        self.start_mark = start_mark
        self.end_mark = end_mark


class SequenceEndEvent(CollectionEndEvent):
    def __init__(self, start_mark, end_mark):
        self.start_mark = start_mark
        self.end_mark = end_mark


class MappingStartEvent(CollectionStartEvent):
    def __init__(self, anchor, tag, implicit, start_mark, end_mark):
        self.anchor = anchor
        self.tag = tag
        self.implicit = implicit
        self.start_mark = start_mark
        self.end_mark = end_mark


class MappingEndEvent(CollectionEndEvent):
    def __init__(self, start_mark, end_mark):
        self.start_mark = start_mark
        self.end_mark = end_mark
