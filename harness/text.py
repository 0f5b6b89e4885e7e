"""Text and tokens (specification: Text)."""
import contextlib
import io
import os
import random
import tempfile

import resegment
from tlv.core import Part

SCRATCH = os.environ.get('TLV_SCRATCH')
FORMS = ['a', 'be', 'Č', '.', ',', 'x y', '"', '(', ')', '„', '“', '¿', '?', '...', '/', '漢字', 'ab', "'", '-']


def sentence(rng, count=None, forms=FORMS, deprels=('dep', 'obj', 'goeswith', 'punct')):
    tk = []
    count = rng.choice((1, 2, 3, 4, 6, 9)) if count is None else count
    w = resegment.words_of(rng, count, 1, tk, {'forms': forms, 'mark': 0, 'mwt': .4})
    for x in w:
        if x['h'] and rng.random() < .3:
            x['d'] = rng.choice(deprels)
    return {'w': w, 'tk': tk, 'tx': ''}


def make(sents):
    """A document with the sentences; keys of nodes for every tree."""
    from udapi.core.document import Document
    doc, keys = Document(), []
    for sent in sents:
        mine = {}
        resegment.fill(doc.create_bundle().create_tree(), sent, sent['tk'], mine)
        keys.append(mine)
    return doc, keys


def view(doc, sents, keys):
    out = []
    for root, sent, mine in zip(doc.trees, sents, keys):
        tk = [{'f': '', 'sp': True} for _ in sent['tk']]
        for mwt in root.multiword_tokens:
            if mwt in mine:
                tk[mine[mwt] - 1] = {'f': mwt.form, 'sp': mwt.misc['SpaceAfter'] != 'No'}
        out.append({'w': resegment.view_words(root, mine), 'tk': tk, 'tx': root.text if root.text is not None else '', 'np': bool(root.newpar)})
    return out


def record(op):
    """Decorator: a function run(case, rec) becomes one that writes one record."""
    def wrap(run):
        def inner(case, emit):
            rec = dict(case, k='hist', op=op, x='')
            try:
                run(case, rec)
            except Exception as error:  # pylint: disable=broad-except
                rec['x'] = '%s: %s' % (type(error).__name__, error)
            emit(rec)
        return inner
    return wrap


# -------------------------------------------------------------------------------- computed text
@record('text')
def run_text(case, rec):
    rec['out'] = ''
    doc, keys = make([case['s']])
    root = doc[0].trees[0]
    node = root
    for this, key in keys[0].items():
        if case['sub'] and key == case['sub'] and not this.is_mwt():
            node = this
    if case['mwt'] and not case['sub'] and case['how']:
        rec['out'] = root.get_sentence(if_missing=case['how'])
    else:
        rec['out'] = node.compute_text() if case['mwt'] else node.compute_text(use_mwt=False)


def text_all(tier, seed, stim):
    rng = random.Random('text%s' % seed)
    out = []
    for _ in range(10000 if tier == 'thorough' else 1500):
        s = sentence(rng)
        out.append({'s': s, 'sub': rng.choice([0] + [w['k'] for w in s['w']]), 'mwt': rng.random() < .7, 'how': rng.choice(['', 'detokenize', 'warn_detokenize'])})
    return out


# --------------------------------------------------------------------------------- tokenization
@record('tok')
def run_tok(case, rec):
    from udapi.block.tokenize.onwhitespace import OnWhitespace
    from udapi.block.tokenize.simple import Simple
    rec.update(out=[], rest=True)
    doc, _keys = make([])
    root = doc.create_bundle().create_tree()
    root.text = case['text']
    (Simple if case['simple'] else OnWhitespace)(keep_spaces=case['keep']).run(doc)
    nodes = root.descendants
    for num, node in enumerate(nodes, 1):
        misc = dict(node.misc)
        rec['out'].append({'f': node.form, 'b': misc.pop('SpacesBefore', ''), 's': misc.pop('SpaceAfter', ''), 'sa': misc.pop('SpacesAfter', '')})
        rec['rest'] = rec['rest'] and not misc and node.ord == num and node.parent is root
    rec['rest'] = rec['rest'] and root.text == case['text']


def tok_all(tier, seed, stim):
    rng = random.Random('tok%s' % seed)
    texts = [s['text'] for s in stim if s['m'] == 'text']
    pieces = ['a', 'B', 'č', '1', '_', '.', '"', '„', '-', ' ', ' ', '\t', '\n', '\r', '\u00a0', '漢', '  ', '…', '€', '\\']
    for _ in range(15000 if tier == 'thorough' else 2000):
        texts.append(''.join(rng.choice(pieces) for _c in range(rng.choice((3, 5, 8, 14, 30)))))
    return [{'text': t, 'simple': rng.random() < .6, 'keep': rng.random() < .5} for t in texts]


# --------------------------------------------------------------------------- spaces from the text
def spaced(rng, forms, spaces):
    return ''.join(f + rng.choice(spaces) for f in forms)


def token_forms(sent):
    seen, out = 0, []
    for w in sent['w']:
        if not w['t']:
            out.append(w['f'])
        elif w['t'] != seen:
            out.append(sent['tk'][w['t'] - 1]['f'])
        seen = w['t']
    return out


def plain(view_of):
    return {'w': view_of['w'], 'tk': view_of['tk'], 'tx': view_of['tx']}


@record('from')
def run_from(case, rec):
    from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
    rec['after'] = {}
    doc, keys = make([case['s']])
    SetSpaceAfterFromText().run(doc)
    rec['after'] = plain(view(doc, [case['s']], keys)[0])


def from_stim(s):
    words = [{'k': i, 'h': i - 1, 'd': 'dep', 'f': x['f'], 'sp': True, 't': 0, 'm': ''} for i, x in enumerate(s['q'], 1)]
    return {'w': words, 'tk': [], 'tx': ''.join(x['f'] + x['s'] for x in s['q'])}


def from_all(tier, seed, stim):
    rng = random.Random('from%s' % seed)
    out = [{'s': from_stim(s)} for s in stim if s['m'] == 'forms']
    if tier != 'thorough':
        out = rng.sample(out, min(len(out), 800))
    for _ in range(10000 if tier == 'thorough' else 1500):
        s = sentence(rng)
        s['tx'] = spaced(rng, token_forms(s), rng.choice((['', ' '], ['', ' ', '  ', '\u00a0', '\t'])))
        if rng.random() < .7:
            s['tx'] = s['tx'].rstrip()
        if rng.random() < .15:
            s['tx'] += ' more'
        out.append({'s': s})
    return out


@record('guess')
def run_guess(case, rec):
    from udapi.block.ud.setspaceafter import SetSpaceAfter
    rec['after'] = []
    doc, keys = make(case['ss'])
    SetSpaceAfter(**({} if case['fix'] else {'fix_text': 0})).run(doc)
    rec['after'] = [plain(v) for v in view(doc, case['ss'], keys)]


def guess_all(tier, seed, stim):
    rng = random.Random('guess%s' % seed)
    small = [from_stim(s) for s in stim if s['m'] == 'forms']
    rng.shuffle(small)
    out = [{'ss': small[i:i + 3], 'fix': rng.random() < .8} for i in range(0, len(small) if tier == 'thorough' else 1500, 3)]
    for _ in range(10000 if tier == 'thorough' else 1200):
        ss = [sentence(rng, forms=FORMS + ['"', '„', '“', '¡', '[', '{', ';', '??', '…', 'a']) for _s in range(rng.choice((1, 1, 2, 4)))]
        for s in ss:
            s['tx'] = rng.choice(['', 'old text'])
        out.append({'ss': ss, 'fix': rng.random() < .8})
    return out


def write_file(base, text):
    name = os.path.join(base, 'in.txt')
    with open(name, 'w', encoding='utf-8', newline='') as out:
        out.write(text)
    return name


@record('addtext')
def run_addtext(case, rec):
    from udapi.block.read.addtext import AddText
    rec['after'] = []
    doc, keys = make(case['ss'])
    with tempfile.TemporaryDirectory(dir=SCRATCH) as base:
        block = AddText(files=write_file(base, case['raw']), **({} if case['par'] else {'add_newpar': False}))
        block.apply_on_document(doc)
    rec['after'] = view(doc, case['ss'], keys)
    if not block.finished:
        rec['x'] = 'not finished'


def addtext_all(tier, seed, stim):
    rng = random.Random('addtext%s' % seed)
    out = []
    for _ in range(8000 if tier == 'thorough' else 1000):
        ss = [sentence(rng) for _s in range(rng.choice((1, 2, 3, 5)))]
        raw = rng.choice(['', '', '\n', '  ', '\n\n'])
        for s in ss:
            raw += spaced(rng, token_forms(s), ['', ' ', ' ', '\n', '\t', '\n\n', '\n\n\n', '\n '])
        if rng.random() < .3:
            raw = raw.rstrip()
        out.append({'ss': ss, 'raw': raw, 'par': rng.random() < .7})
    return out


# ----------------------------------------------------------------------------- plain-text files
@record('lines')
def run_lines(case, rec):
    from udapi.core.document import Document
    from udapi.block.read.sentences import Sentences
    rec['out'] = []
    with tempfile.TemporaryDirectory(dir=SCRATCH) as base:
        name = write_file(base, case['raw'])
        opts = {'ignore': {'ignore_empty_lines': 1}, 'newdoc': {'newdoc_if_empty_line': 1}}.get(case['mode'], {})
        if case['doc'] and not opts and name.endswith('.txt'):
            doc = Document(name)
        else:
            doc = Document()
            Sentences(files=name, **opts).apply_on_document(doc)
    rec['out'] = [{'tx': t.text if t.text is not None else '~None', 'nd': bool(t.newdoc)} for t in doc.trees]
    if [b.number for b in doc.bundles] != list(range(1, len(doc) + 1)) or any(t.descendants for t in doc.trees):
        rec['x'] = 'wrong sentences'


@record('paragraphs')
def run_paragraphs(case, rec):
    from udapi.core.document import Document
    from udapi.block.read.text import Text
    rec['out'] = []
    with tempfile.TemporaryDirectory(dir=SCRATCH) as base:
        doc = Document()
        Text(files=write_file(base, case['raw'])).apply_on_document(doc)
    rec['out'] = [t.text for t in doc.trees]


def raw_text(rng):
    lines = [rng.choice(['', '', 'a', 'Věta b.', ' c', 'd ', 'e  f', '  ', '# x', '1\ta']) for _l in range(rng.choice((0, 1, 2, 4, 8)))]
    raw = ''.join(x + rng.choice(['\n'] * 5 + ['\r\n']) for x in lines)
    return raw[:-1] if raw.endswith('\n') and not raw.endswith('\r\n') and rng.random() < .3 else raw


def lines_all(tier, seed, stim):
    rng = random.Random('lines%s' % seed)
    return [{'raw': raw_text(rng), 'mode': rng.choice(['', 'ignore', 'newdoc']), 'doc': rng.random() < .5} for _ in range(5000 if tier == 'thorough' else 700)]


def paragraphs_all(tier, seed, stim):
    rng = random.Random('paragraphs%s' % seed)
    return [{'raw': raw_text(rng)} for _ in range(5000 if tier == 'thorough' else 700)]


@record('write')
def run_write(case, rec):
    from udapi.block.write.sentences import Sentences
    doc, _keys = make(case['ss'])
    for root, s in zip(doc.trees, case['ss']):
        root.newdoc, root.newpar = s['nd'] or None, s['np'] or None
    rec['out'] = []
    rec['s'] = [{'tx': s['tx'], 'comp': t.compute_text(), 'nd': s['nd'], 'np': s['np']} for s, t in zip(case['ss'], doc.trees)]
    del rec['ss']
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        kwargs = {key: 1 for key in ('newdoc', 'newpar') if case[key]}
        if case['mode']:
            kwargs['if_missing'] = case['mode']
        Sentences(**kwargs).run(doc)
    rec['mode'] = case['mode'] or 'detokenize'
    lines = out.getvalue().split('\n')
    rec['out'] = lines[:-1]
    if lines[-1]:
        rec['x'] = 'unfinished line'


def write_all(tier, seed, stim):
    rng = random.Random('write%s' % seed)
    out = []
    for _ in range(5000 if tier == 'thorough' else 700):
        ss = [dict(sentence(rng), tx=rng.choice(['', 'Text.', 'a  b']), nd=rng.random() < .3, np=rng.random() < .3) for _s in range(rng.choice((0, 1, 2, 4)))]
        out.append({'ss': ss, 'mode': rng.choice(['', 'detokenize', 'warn_detokenize', 'empty', 'warn_empty', 'fatal']), 'newdoc': rng.random() < .5, 'newpar': rng.random() < .5})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TokInv FromInv GuessInv EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
MC = [dict(module='MC_Text', cfg=CFG % 4, thorough_cfg=CFG % 5)]
PARTS = [
    Part('text', 'Trace_Text', run_text, text_all),
    Part('tok', 'Trace_Text', run_tok, tok_all, mc=MC),
    Part('from', 'Trace_Text', run_from, from_all, mc=MC),
    Part('guess', 'Trace_Text', run_guess, guess_all, mc=MC),
    Part('addtext', 'Trace_Text', run_addtext, addtext_all),
    Part('lines', 'Trace_Text', run_lines, lines_all),
    Part('paragraphs', 'Trace_Text', run_paragraphs, paragraphs_all),
    Part('write', 'Trace_Text', run_write, write_all),
]
