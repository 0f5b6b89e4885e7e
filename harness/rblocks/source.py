"""A reader for scenarios."""
import io

from udapi.block.read.conllu import Conllu
from rblocks import probe


class Source(probe.Noted, Conllu):
    """A real reader with `docs` documents of one tree each."""

    def __init__(self, docs=1, **kwargs):
        rows = ''.join('# newdoc\n# sent_id = s%d\n1\tw\t_\tX\t_\t_\t0\troot\t_\t_\n\n' % i for i in range(1, docs + 1))
        probe.MADE.append(self)
        self.position = len(probe.MADE)
        super().__init__(filehandle=io.StringIO(rows), zone='z' + 'abcdefgh'[self.position - 1], split_docs=True, **kwargs)

    def process_document(self, document):
        if not self.finished:
            super().process_document(document)
        probe.note('doc', self, document)
