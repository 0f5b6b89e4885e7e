"""Other formats (specification: Formats)."""
import contextlib
import html.parser
import io
import json
import os
import random
import re
import tempfile
import xml.etree.ElementTree

from selecting import heads
from text import SCRATCH, record
from tlv.core import Part

FORMS = ['a', 'b', 'Č', 'a b', '"', 'x=1', '(', '|)', '#1', ';', '§', '§num.', 'a/b', '\\', 'a\\', '<b>', '&', '&lt;', "'", '_', '$5', '50%', '{x}', '[y]', '~', '^', '漢', '-', 'a-1']
LEMMAS = ['a', 'l', 'l m', 'q"', '"', '§quot.', '<', '&', 'x_y', '\\', '(a)', 'č', '#']
FEATS = ['_', '_', 'A=1', 'A=1|B=2', 'A=1|B=2|C=3', 'Case=Nom|Number[psor]=Sing|Person=3|X=4', 'P=§', 'A_b=1|C=x_y']
ZONES = ['', 'en', 'cs_ref', 'x-y_1']


def build(d, zones=False):
    """A document with a bundle for each tree."""
    from udapi.core.document import Document
    doc = Document()
    for k, t in enumerate(d, 1):
        if not (zones and t['same']):
            bundle = doc.create_bundle()
            bundle.bundle_id = 's%d' % k
        root = bundle.create_tree(t['zone'])
        nodes = [root] + [root.create_child(form=w['f'], lemma=w['l'], upos=w['u'], xpos=w['x'], feats=w['fe'], deprel=w['d']) for w in t['w']]
        for n, w in zip(nodes[1:], t['w']):
            n.parent = nodes[w['h']]
            if w['sp']:
                n.misc['SpaceAfter'] = 'No'
            if w['ed']:
                n.deps = [{'parent': nodes[e[0]], 'deprel': e[1]} for e in w['ed']]
        for m in t['t']:
            token = root.create_multiword_token(nodes[m['a']:m['b'] + 1], form=m['f'])
            if m['sp']:
                token.misc['SpaceAfter'] = 'No'
        if t['text']:
            root.text = t['text']
        root.comment = ''.join(c + '\n' for c in t['comment'])
        t['id'] = root.address()
        t['sid'] = t['id'].replace('/', '-').replace('#', '-')
    return doc


def written(block, doc, **kwargs):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        block = block(**kwargs)
        block.run(doc)
    return out.getvalue()


@contextlib.contextmanager
def files(*texts):
    names = []
    for text in texts:
        fd, name = tempfile.mkstemp(dir=SCRATCH)
        with os.fdopen(fd, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        names.append(name)
    try:
        yield ' '.join(names)
    finally:
        for name in names:
            os.unlink(name)


def token(root):
    return [{'a': m.words[0].ord, 'b': m.words[-1].ord, 'f': m.form} for m in root.multiword_tokens]


# ---------------------------------------------------------------------------- columns
@record('conll')
def run_conll(case, rec):
    from udapi.core.document import Document
    from udapi.block.read.conll import Conll
    from udapi.block.read.conllup import Conllup
    rec['out'] = []
    lines = []
    if case['up']:
        lines.append('# global.columns = ' + ' '.join(case['header']))
    for sent in case['sents']:
        lines += [case['sep'].join(row) for row in sent] + ['']
    doc = Document()
    with files('\n'.join(lines) + '\n') as name:
        how = dict(files=name, strict=case['strict'], fix_cycles=case['fix'], empty_parent='ignore')
        if case['up']:
            block = Conllup(**how)
        else:
            block = Conll(attributes=','.join(case['attrs']), separator=case['sepname'], **how)
        block.process_document(doc)
    for root in doc.trees:
        rec['out'].append({'w': [{'h': n.parent.ord, 'form': n.form, 'lemma': n.lemma or '_', 'upos': n.upos or '_', 'xpos': n.xpos or '_', 'feats': str(n.feats), 'deprel': n.deprel or '_',
                                  'deps': n.raw_deps, 'misc': [] if str(n.misc) == '_' else str(n.misc).split('|')} for n in root.descendants],
                           't': [[str(m['a']), str(m['b']), m['f']] for m in token(root)]})


COLUMNS = ['ord,form,lemma,upos,xpos,feats,head,deprel,deps,misc', 'ord,form,lemma,upos,xpos,feats,head,deprel,_,_', 'ord,form,lemma,_,upos,_,feats,_,head,_,deprel',
           'ord,form,head', 'ord,form,upos,head,deprel,misc', 'ord,form,_,deprel,head,misc,lemma']
UP = ['ID FORM LEMMA UPOS XPOS FEATS HEAD DEPREL DEPS MISC', 'ID FORM LEMMA UPOS HEAD DEPREL MISC Semclass', 'ID FORM anas HEAD MISC', 'ID FORM HEAD PARSEME:MWE LEMMA Note', 'ID FORM _ HEAD deprel extra']
VALUES = {'form': ['a', 'b', 'Č', '_', 'x-y', '.'], 'lemma': ['_', 'l', 'č'], 'upos': ['_', 'NOUN', 'X'], 'xpos': ['_', 'n'], 'feats': ['_', '_', 'A=1', 'A=1|B=2', 'masc|sg'],
          'deprel': ['root', 'dep', 'nsubj:pass', '_'], 'misc': ['_', '_', 'Gloss=g', 'Gloss=g|Note=x', 'Empty'], '_': ['_', 'PRED', '3']}


def conll_rows(rng, attrs, up, sep):
    n = rng.choice((1, 1, 2, 3, 4, 5, 7))
    h = heads(rng, n)
    if rng.random() < .3:
        for k in rng.sample(range(1, n + 1), rng.randint(1, n)):
            h[k] = rng.randint(0, n)
    odd = rng.random() < .15
    unknown = up and rng.random() < .3
    rows = []
    ends = 0
    for i in range(1, n + 1):
        if i > ends and i < n and rng.random() < .15:
            ends = rng.randint(i + 1, n)
            rows.append([('%d-%d' % (i, ends)) if k == 0 else rng.choice(('ab', 'a-b')) if k == 1 else '_' for k in range(len(attrs))])
        row = []
        for a in attrs:
            if a == 'ord':
                row.append(str(i if not odd or rng.random() < .97 else i + 1))
            elif a == 'head':
                row.append('???' if unknown and rng.random() < .4 else str(h[i]) if not odd or rng.random() < .8 else rng.choice(('_', '-1', '-%d' % n, str(n + 1), 'x', '_', '???')))
            elif a == 'deps':
                row.append(rng.choice(('_', '_', '0:root', '1:dep|2:x'[:5])))
            elif a == 'form' and sep == '\t' and rng.random() < .1:
                row.append('a b')
            else:
                row.append(rng.choice(VALUES.get(a, ['_', 'v', 'w:x'])))
        if odd and rng.random() < .1 and attrs[-1] != 'head':
            row = row[:-1] if attrs[-1] != 'deprel' and len(row) > 3 and attrs[-2] != 'head' else row + ['_']
        rows.append(row)
    return rows


def conll_cases(tier, seed, stim):
    rng = random.Random('conll%s' % seed)
    out = []
    for _ in range(12000 if tier == 'thorough' else 1300):
        up = rng.random() < .4
        header = rng.choice(UP).split(' ') if up else []
        attrs = ['ord' if c == 'ID' else c.lower() for c in header] if up else rng.choice(COLUMNS).split(',')
        name = 'tab' if up else rng.choice(('tab', 'tab', 'space', 'doublespace'))
        sep = {'tab': '\t', 'space': rng.choice((' ', '   ')), 'doublespace': rng.choice(('  ', '    '))}[name]
        out.append({'up': up, 'header': header, 'attrs': attrs, 'sepname': name, 'sep': sep, 'strict': rng.random() < .3, 'fix': rng.random() < .5,
                    'sents': [conll_rows(rng, attrs, up, sep) for _ in range(rng.choice((1, 1, 1, 2, 3)))]})
    return out


# ---------------------------------------------------------------------------- VISL CG, Stanford
@record('visl')
def run_visl(case, rec):
    from udapi.core.document import Document
    from udapi.block.write.vislcg import Vislcg
    from udapi.block.read.vislcg import Vislcg as Reader
    rec.update(lines=[], back=[], sec='§')
    text = written(Vislcg, build(case['d']))
    rec['lines'] = text[:-1].split('\n') if text else []
    doc = Document()
    with files(text) as name:
        Reader(files=name).process_document(doc)
    rec['back'] = [{'w': [{'h': n.parent.ord, 'f': n.form, 'l': n.lemma, 'x': n.xpos, 'fe': str(n.feats), 'd': n.deprel} for n in root.descendants], 't': token(root)} for root in doc.trees]


@record('sd')
def run_sd(case, rec):
    from udapi.block.write.sdparse import Sdparse
    rec['lines'] = []
    o = case['o']
    text = written(Sdparse, build(case['d']), print_upos=o['upos'], print_feats=o['feats'], always_ord=o['ord'])
    rec['lines'] = text[:-1].split('\n') if text else []


# ---------------------------------------------------------------------------- Treex
@record('treex')
def run_treex(case, rec):
    from udapi.block.write.treex import Treex
    rec['out'] = []
    text = written(Treex, build(case['d'], True))
    top = xml.etree.ElementTree.fromstring(text.encode())
    ns = '{http://ufal.mff.cuni.cz/pdt/pml/}'

    def nodes(item, up):
        out = []
        for child in item.findall(ns + 'children/' + ns + 'LM'):
            def value(name):
                return child.findtext(ns + name) or ''
            out.append({'id': child.get('id'), 'ord': value('ord'), 'up': up, 'form': value('form'), 'lemma': value('lemma'), 'tag': value('tag'), 'deprel': value('deprel'),
                        'pos': value('conll/' + ns + 'pos'), 'feat': value('conll/' + ns + 'feat')})
            out += nodes(child, value('ord'))
        return out
    for zone in top.iter(ns + 'zone'):
        tree = zone.find(ns + 'trees/' + ns + 'a_tree')
        lang = zone.get('language')
        rec['out'].append({'text': zone.findtext(ns + 'sentence') or '', 'zone': (lang + '_' if lang != 'und' else '') + zone.get('selector'), 'w': nodes(tree, tree.findtext(ns + 'ord'))})


# ---------------------------------------------------------------------------- LaTeX
def graphs(text):
    for part in text.split('\\begin{dependency}\n')[1:]:
        inner, rest = part.split('\\end{deptext}\n')
        inner = inner.split('\n')[1:-1]
        heads_ = []
        while inner and inner[0].startswith('%'):
            heads_.append(inner.pop(0))
        yield heads_, inner, rest.split('\\end{dependency}\n')[0].split('\n')[:-1]


def cells(rows, n):
    return [[c.strip() for c in row[:-3].split(r' \& ')] if n or row != r' \\' else [] for row in rows]


def tikz(case):
    from udapi.block.write.tikz import Tikz
    o = case['o']
    return written(Tikz, build(case['d'], True), print_sent_id=o['id'], print_text=o['text'], print_preambule=o['pre'], attributes=','.join(o['attrs']),
                   as_tree=case['as_tree'], enhanced=o['enh'], comment_attribute=o['note'] or None)


@record('tikz')
def run_tikz(case, rec):
    rec['out'] = []
    for t, (head, rows, rest) in zip(case['d'], graphs(tikz(case))):
        edges, trans = [], ''
        for line in rest:
            m = re.fullmatch(r'\\deproot(\[edge below\])?\{(\d+)\}\{(.*)\}', line)
            if m:
                edges.append([0, int(m[2]), m[3], bool(m[1])])
                continue
            m = re.fullmatch(r'\\depedge(\[edge below\])?\{(\d+)\}\{(\d+)\}\{(.*)\}', line)
            if m:
                edges.append([int(m[2]), int(m[3]), m[4], bool(m[1])])
            else:
                trans = line[len(r'\deptrans{'):-1] if line.startswith(r'\deptrans{') and line.endswith('}') and not trans else '!' + line
        rec['out'].append({'rows': cells(rows, len(t['w'])), 'edges': edges, 'heads': head, 'trans': trans})


@record('tikz2')
def run_tikz2(case, rec):
    rec['out'] = []
    for t, (_, rows, rest) in zip(case['d'], graphs(tikz(case))):
        up, edges = {}, []
        for line in rest:
            m = re.fullmatch(r'\\node \(w(\d+)\) \[yshift=\\depskip\+(\d+)\\deplevel,depnode\] at \(\\wordref\{1\}\{(\d+)\}\) \{\};', line)
            if m:
                up[int(m[1])] = int(m[2]) if m[1] == m[3] else -1
            m = re.search(r'\\draw\[depedge\] \(w(\d+)\)--node\[deplabel\] \{(.*)\} \(w(\d+)\);', line)
            if m:
                edges.append([int(m[3]), int(m[1]), m[2], False])
        rec['out'].append({'rows': cells(rows, len(t['w'])), 'up': [up.get(i, -1) for i in range(1, len(t['w']) + 1)], 'edges': edges})


# ---------------------------------------------------------------------------- HTML
@record('html')
def run_html(case, rec):
    from udapi.block.write.html import Html
    rec['out'] = []
    text = written(Html, build(case['d'], True))
    data = json.loads(text[text.index('data=') + 5:text.index("\n;\n$('#treex-view')")])
    for bundle in data:
        descs = {}
        skip = False
        for item in bundle['desc']:
            if skip:
                skip = False
            elif item[1] == 'label':
                skip = True
                zone = item[0][1:-1]
                descs[zone] = ''
            elif item[1] != 'newline':
                descs[zone] += item[0]
        for zone, item in bundle['zones'].items():
            nodes = []
            for n in item['trees']['a']['nodes']:
                one = {'id': n['id'], 'parent': n['parent'] or '', 'first': n.get('firstson') or ''}
                if nodes:
                    one['next'] = n.get('rbrother') or ''
                    one.update({k: v for k, v in n['data'].items() if k in ('form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'misc')})
                nodes.append(one)
            rec['out'].append({'sentence': item['sentence'], 'zone': zone, 'n': nodes, 'desc': descs[zone]})


class Items(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.items, self.tags, self.inside, self.title = [], [], None, ''

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        self.inside = tag
        if tag == 'li':
            self.items.append([dict(attrs).get('id'), ''])

    def handle_endtag(self, tag):
        self.inside = None

    def handle_data(self, data):
        if self.inside == 'li':
            self.items[-1][1] += data
        elif self.inside == 'title':
            self.title += data


@record('list')
def run_list(case, rec):
    from udapi.block.write.sentenceshtml import SentencesHtml
    rec.update(out=[], ok=False)
    doc = build(case['d'], True)
    for t, tree in zip(case['d'], doc.trees):
        t['id'] = tree.sent_id
    text = written(SentencesHtml, doc, title=case['title'])
    parser = Items()
    parser.feed(text)
    parser.close()
    rec.update(out=parser.items, ok=parser.title == case['title'] and set(parser.tags) <= {'html', 'head', 'body', 'meta', 'title', 'ul', 'li'})


def tree(rng, op, n=None):
    n = rng.choice((0, 1, 2, 2, 3, 4, 5, 5, 7, rng.choice((11, 14, 24)))) if n is None else n
    if op == 'visl':
        n = n or 1
    h = heads(rng, n)
    if n > 10 and rng.random() < .6:  # a bush
        top = rng.sample(range(1, n + 1), 3) if rng.random() < .4 else [1, 2, 3]
        h = {k: 0 if k == top[0] else top[0] if k == top[1] and rng.random() < .3 else 0 if k in top else rng.choice([0] + top) for k in range(1, n + 1)}
    plain = rng.random() < .3
    forms = ['a', 'b', 'c'] if plain else rng.sample(FORMS, rng.choice((2, 4, 9)))
    w = []
    for i in range(1, n + 1):
        ed = []
        if op == 'tikz' and rng.random() < .4:
            ed = [[k, rng.choice(('e', 'e:x'))] for k in sorted(rng.sample(range(n + 1), min(n, rng.choice((1, 1, 2)))))]
        w.append({'h': h[i], 'f': rng.choice(forms), 'l': rng.choice(LEMMAS), 'u': rng.choice(('X', 'NOUN')), 'x': rng.choice(('x', 'n', '#', '_', '(', 'a|b')), 'fe': rng.choice(FEATS),
                  'd': rng.choice(('dep', 'root', 'obj', 'nsubj:pass')), 'mi': '_', 'sp': rng.random() < .3, 'ed': ed})
    t, i = [], 1
    while i <= n:
        if rng.random() < .2 and op not in ('html',):
            b = min(n, i + rng.choice((0, 1, 1, 2)))
            t.append({'a': i, 'b': b, 'f': rng.choice((rng.choice(forms), 'a b', 'ab', 'a b c', '"a')), 'sp': rng.random() < .3})
            for k in range(i, b + 1):
                w[k - 1]['sp'] = False
            i = b
        i += 1
    comment = [' c = 1', ' text_en = A $ b', ' 100%', ' text_en2 = x'][:rng.choice((0, 0, 1, 2, 3, 4))]
    return {'w': w, 't': t, 'zone': '', 'text': rng.choice(('', '', 'A b.', 'a < b & c', '"x" \\ y')), 'comment': [c for c in comment if rng.random() < .8], 'same': False, 'id': '', 'sid': ''}


def document(rng, op):
    d = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        t = tree(rng, op)
        if op in ('treex', 'tikz', 'tikz2', 'html', 'list'):
            free = [z for z in ZONES if z not in zone] if d and rng.random() < .4 else []
            if free:
                t['same'] = True
            else:
                zone = []
            t['zone'] = rng.choice(free or ZONES)
            zone.append(t['zone'])
        d.append(t)
    return d


def options(rng, op, case):
    if op == 'sd':
        case['o'] = {'upos': rng.random() < .5, 'feats': rng.random() < .5, 'ord': rng.random() < .4}
    if op in ('tikz', 'tikz2'):
        case['o'] = {'id': rng.random() < .7, 'text': rng.random() < .7, 'pre': rng.random() < .5, 'enh': op == 'tikz' and rng.random() < .6, 'note': rng.choice(('', 'text_en', 'c')),
                     'attrs': rng.choice((['form', 'upos'], ['form', 'upos', 'deprel'], ['ord', 'form'], ['form', 'lemma', 'feats'], ['form']))}
        case['as_tree'] = op == 'tikz2'
    if op == 'list':
        case['title'] = rng.choice(('Sentences', 'A & <b>', '"x"'))
    return case


def writer_cases(tier, seed, stim):
    rng = random.Random('formats%s' % seed)
    out = []
    for s in rng.sample(stim, min(len(stim), 20000 if tier == 'thorough' else 600)):
        t = {'w': [dict(w, ed=[], f=w['f'].replace('S', '§'), l=w['l'].replace('S', '§'), x=w['x'].replace('S', '§'), fe=w['fe'].replace('S', '§')) for w in s['w']], 't': s['t'], 'zone': '', 'text': '',
             'comment': [], 'same': False, 'id': '', 'sid': ''}
        op = rng.choice(('visl', 'visl', 'sd', 'treex', 'tikz'))
        out.append(options(rng, op, {'op_': op, 'd': [t]}))
    for op, k in (('visl', 350), ('sd', 300), ('treex', 300), ('tikz', 400), ('tikz2', 200), ('html', 300), ('list', 200)):
        for _ in range(k * (8 if tier == 'thorough' else 1)):
            out.append(options(rng, op, {'op_': op, 'd': document(rng, op)}))
    return out


def run_writer(case, emit):
    {'visl': run_visl, 'sd': run_sd, 'treex': run_treex, 'tikz': run_tikz, 'tikz2': run_tikz2, 'html': run_html, 'list': run_list}[case['op_']](case, emit)


# ---------------------------------------------------------------------------- texts
@record('addsent')
def run_addsent(case, rec):
    from udapi.core.document import Document
    from udapi.block.read.addsentences import AddSentences
    rec.update(text=[], comments=[])
    doc = Document()
    for t in case['d']:
        root = doc.create_bundle().create_tree()
        root.create_child(form='a')
        if t['text']:
            root.text = t['text']
        root.comment = t['comment'] + '\n' if t['comment'] else ''
    with files(''.join(line + '\n' for line in case['lines'])) as name:
        AddSentences(files=name, into=case['into']).process_document(doc)
    rec['text'] = [root.text or '' for root in doc.trees]
    rec['comments'] = [root.comment[:-1].split('\n') if root.comment else [] for root in doc.trees]


def line_cases(tier, seed, stim):
    rng = random.Random('addsent%s' % seed)
    out = []
    for _ in range(4000 if tier == 'thorough' else 500):
        n = rng.choice((1, 2, 3, 4))
        out.append({'d': [{'text': rng.choice(('', 'old')), 'comment': rng.choice(('', ' c = 1'))} for _ in range(n)], 'into': rng.choice(('text', 'text', 'text_en', 'gloss')),
                    'lines': [rng.choice(('A b.', 'x', '  y', 'z  ', '', 'tab\t', 'č')) for _ in range(n + rng.choice((0, 0, 0, 1, -1)))]})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS VislInv SdInv EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
MC = [dict(module='MC_Formats', cfg=CFG % 3, thorough_cfg=CFG % 3)]
PARTS = [
    Part('columns', 'Trace_Formats', run_conll, conll_cases),
    Part('writers', 'Trace_Formats', run_writer, writer_cases, mc=MC),
    Part('lines', 'Trace_Formats', run_addsent, line_cases),
]
