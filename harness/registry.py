"""Which harness parts decide which property."""
REGISTRY = {
    'T01': [('tree', 'integrity-all'), ('tree', 'integrity-hist'), ('tree', 'integrity-steal')],
    'T02': [('tree', 'refusal-all'), ('tree', 'refusal-hist'), ('tree', 'refusal-steal')],
    'T03': [('tree', 'order-all'), ('tree', 'order-hist')],
    'T04': [('tree', 'remove-all'), ('tree', 'remove-rich'), ('tree', 'remove-hist')],
    'T05': [('tree', 'empty-all'), ('tree', 'empty-hist')],
    'T06': [('tree', 'deps-all'), ('tree', 'deps-hist')],
    'T07': [('tree', 'mwt-all'), ('tree', 'mwt-hist'), ('tree', 'mwt-steal')],
    'T08': [('tree', 'query-all'), ('tree', 'query-hist')],
    'A01': [('attrs', 'dict-all'), ('attrs', 'dict-hist'), ('attrs', 'rel')],
    'F01': [('conllu', 'files-all'), ('conllu', 'files'), ('conllu', 'built')],
    'F02': [('conllu', 'heads'), ('conllu', 'columns')],
    'I01': [('docs', 'ids-all'), ('docs', 'ids-hist')],
    'L01': [('docs', 'load-all'), ('docs', 'load'), ('docs', 'parallel')],
    'L02': [('docs', 'files-all'), ('docs', 'files')],
    'R01': [('scenario', 'parse'), ('scenario', 'cli'), ('scenario', 'exec')],
    'R02': [('scenario', 'disp'), ('scenario', 'eval')],
    'R03': [('scenario', 'out')],
    'S01': [('resegment', 'words'), ('resegment', 'segment'), ('resegment', 'gold')],
    'S02': [('text', p) for p in ('text', 'tok', 'from', 'guess', 'addtext', 'lines', 'paragraphs', 'write')],
    'S03': [('wordedits', p) for p in ('removemwt', 'join', 'asmwt', 'fixspace', 'underscores', 'addmwt', 'comply')],
    'S04': [('selecting', p) for p in ('filter', 'mark', 'wc', 'see', 'diff', 'normalize', 'eval', 'split')],
    'S05': [('fills', p) for p in ('goeswith', 'translate', 'lemma', 'mwe', 'fixed')],
    'E01': [('scores', p) for p in ('parsing', 'f1', 'conll')],
    'B01': [('fixes', 'fix')],
    'B02': [('fixes', 'punct')],
    'D01': [('drawing', 'draw')],
    'B03': [('bugs', p) for p in ('marks', 'mwt', 'find', 'type', 'feats')],
    'C01': [('convert', 'convert')],
    'X01': [('formats', p) for p in ('columns', 'writers', 'lines')],
    'K01': [('coref', 'edit-all'), ('coref', 'edit-hist')],
    'K02': [('coref', 'store'), ('coref', 'load')],
    'K03': [('corefblocks', p) for p in ('heads', 'spans', 'parens', 'marks', 'samespan', 'interleaved', 'nocoref', 'newdoc', 'ids', 'links', 'delete', 'single')],
    'U01': [('contractions', 'divide')],
    'U02': [('langfixes', 'fix'), ('langfixes', 'spaces')],
    'K04': [('corefreports', p) for p in ('pairs', 'mentions', 'entities', 'stats', 'gaps', 'misc')],
    'K06': [('corefrelease', 'valid'), ('corefrelease', 'harmony')],
    'K05': [('corefformats', p) for p in ('old', 'oload', 'conll', 'html')],
}
