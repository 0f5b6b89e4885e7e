"""Blocks for scenarios: they write down when they are called."""
from udapi.core.block import Block
from udapi.core.basereader import BaseReader

EVENTS = []
MADE = []
DOCS = []          # documents of the scenario in order of their appearance


def number(document):
    for num, known in enumerate(DOCS, 1):
        if known is document:
            return num
    DOCS.append(document)
    return len(DOCS)


def note(event, block, document=None):
    EVENTS.append([event, block.position, number(document) if document is not None else 0,
                   sum(len(b.trees) for b in document.bundles) if document is not None else 0])


class Noted:
    def process_start(self):
        note('start', self)

    def process_end(self):
        note('end', self)

    def before_process_document(self, document):
        note('before', self, document)

    def after_process_document(self, document):
        note('after', self, document)


class Probe(Noted, Block):
    """An ordinary block accepting any parameters."""

    def __init__(self, **kwargs):
        super().__init__()
        self.given = kwargs
        MADE.append(self)
        self.position = len(MADE)

    def process_document(self, document):
        note('doc', self, document)
