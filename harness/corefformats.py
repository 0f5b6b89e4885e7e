"""Coreference in other formats (specification: CorefFormats)."""
import glob
import gzip
import os
import random
import re
import shutil
import tempfile
from html.parser import HTMLParser

import coref
import corefblocks
import corefreports
from text import record
from tlv.core import Part

OLD = 'ClusterId MentionSpan ClusterType Bridging SplitAnte MentionMisc'.split()


def read_with(reader, text):
    from udapi.core.document import Document
    name = tempfile.mktemp(suffix='.conllu', prefix='tlv')
    try:
        with open(name, 'w', encoding='utf-8') as f:
            f.write(text)
        doc = Document()
        reader(name).apply_on_document(doc)
        return doc
    finally:
        os.remove(name)


def old_reader(**kwargs):
    from udapi.block.read.oldcorefud import OldCorefUD
    return lambda name: OldCorefUD(files=name, **kwargs)


def loaded(rec, make):
    """Entities of a document which is read, or the error."""
    try:
        doc = make()
    except ValueError as error:
        rec['err'] = 'ValueError: %s' % error
        return None
    rec['d2'], rec['c'] = coref.entities(doc)
    return doc


def ords(S):
    return [coref.ords_of(s['em']) for s in S]


# -------------------------------------------------------------------------------- CorefUD 0.1
@record('old')
def run_old(case, rec):
    from udapi.block.write.oldcorefud import OldCorefUD
    rec.update({'d': [], 'misc': [], 'head': '', 'd2': [], 'c': [], 'err': '', 'ords': ords(case['S'])})
    doc = corefblocks.build(case, misc=case['junk'])
    rec['d'] = coref.entities(doc)[0]
    text = corefreports.printed(lambda: OldCorefUD().run(doc))
    rec['misc'] = [[sorted(x for x in line.split('\t')[9].split('|') if x != '_') for line in block.split('\n') if not line.startswith('#')] for block in text.strip('\n').split('\n\n')]
    rec['head'] = ' '.join(re.findall('.*lobal.*', text))
    loaded(rec, lambda: read_with(old_reader(), text))


def others(rng):
    return sorted(({'k': k, 'v': v} for k, v in rng.sample([('k', 'v%2Dw'), ('Zeta', 'y:z'), ('infstat', '%28x%29'), ('a', '~'), ('x', '1%2C2')], rng.choice((0, 0, 1, 2)))), key=lambda x: x['k'].lower())


def old_case(rng):
    case = corefblocks.random_case(rng, ids=rng.sample(['e1', 'e2', 'e10', 'b', 'E1', 'č', 'x_y'], rng.choice((1, 2, 3, 4))), per=(1, 1, 2, 3, 6), close=True, plain=rng.random() < .8)
    corefblocks.antecedents(rng, case)
    names = [e['id'] for e in case['d']]
    for e in case['d']:
        for m in e['ms']:
            m['o'] = others(rng)
            if len(names) > 2 and rng.random() < .3:
                m['b'] = [{'t': t, 'r': rng.choice(['part', 'subset', 'a%2Db'])} for t in rng.sample([n for n in names if n != e['id']], 2)]
            m['b'] = [dict(x, r=x['r'] or 'part') for x in m['b']]
            if rng.random() < .2:                           # several mentions with one head
                m['h'] = m['w'][0]
    return case


def old_cases(tier, seed, stim):
    rng = random.Random('old%s' % seed)
    out = []
    mine = [x for x in stim if 'd' in x]
    for x in rng.sample(mine, min(len(mine), 5000 if tier == 'thorough' else 300)):
        n = max([m['w'][-1] for e in x['d'] for m in e['ms']] + [2])
        S = [{'em': [False] * n, 'h': list(range(n)), 'd': [[] for _ in range(n)], 'le': ['l'] * n}]
        out.append({'S': S, 'nd': [True], 'd': x['d']})
    for _ in range(6000 if tier == 'thorough' else 700):
        out.append(old_case(rng))
    for case in out:
        case['junk'] = [['|'.join(rng.sample(['Note=%d' % rng.randrange(9), 'ClusterIdx=1', 'SplitWord=x', 'MentionSpan[2]=7', 'ClusterId[3]=zz'], rng.choice((1, 2)))) if rng.random() < .3 else '' for _ in s['em']] for s in case['S']]
    return out


# -------------------------------------------------------------------------------- reading of CorefUD 0.1
@record('oload')
def run_oload(case, rec):
    rec.update({'d2': [], 'c': [], 'err': '', 'left': [], 'ords': ords(case['S'])})
    misc = []
    for sent in case['a']:
        misc.append([])
        for q in sent:
            out = ['ClusterIdx=1', 'SplitAnte2=z']
            for i, x in enumerate(q, 1):
                n = '' if len(q) == 1 and not case['one'] else '[%d]' % i
                for name, key in zip(OLD, ('id', 'sp', 'ty', 'b', 'sa', 'mm')):
                    if x[key]:
                        out.append('%s%s=%s' % (name, n, x[key]))
            misc[-1].append('|'.join(sorted(out)))
    text = corefblocks.text_of(case['S'], case['nd'], misc)
    doc = loaded(rec, lambda: read_with(old_reader(replace_hyphen_in_id_with=case['hyph']) if case['hyph'] else old_reader(), text))
    if doc is not None:
        rec['left'] = sorted({str(node.misc) for node in doc.nodes_and_empty})


def oload_cases(tier, seed, _stim):
    rng = random.Random('oload%s' % seed)
    out = []
    for _ in range(8000 if tier == 'thorough' else 900):
        case = corefblocks.random_case(rng, links=False)
        names = rng.sample(['a-b', 'ab', 'a_b', 'a-b-', 'ab2', 'c1', 'c1-', 'e-1', 'e1', 'a--b'], rng.choice((1, 2, 3, 4)))
        used, a, types = [], [], {x: rng.choice(['', 'person', 'x']) for x in names}
        wide = rng.random() < .3                            # entities without mentions are possible
        for sent in case['S']:
            n = len(sent['em'])
            o = coref.ords_of(sent['em'])
            a.append([])
            for p in range(1, n + 1):
                q = []
                for _m in range(rng.choice((0, 0, 1, 1, 2, 3))):
                    name = rng.choice(names)
                    w = sorted(set(coref.some_span(rng, o)) | {p})
                    if (len(a), w, name) in used:
                        continue
                    used.append((len(a), w, name))
                    sp = '' if rng.random() < .1 else rng.choice([coref.ranges, coref.span_text])(o, w)
                    q.append({'id': name, 'sp': sp, 'ty': types[name] if rng.random() < .9 else rng.choice(['', 'z']), 'b': '', 'sa': '',
                              'mm': rng.choice(['', '', 'k:v', 'k:a-b z:(c)', 'x', 'b:v,k:w', 'a:1 b', 'a:1 b:2 c:3', '(a)(b)-c-d'])})
                a[-1].append(q)
        there = [x for x in names if any(y['id'] == x for s in a for q in s for y in q)]
        pool = names if wide else there
        for s in a:
            for q in s:
                for x in q:
                    rest = [y for y in pool if y != x['id'] or rng.random() < .03]
                    if rest and rng.random() < .3:
                        x['b'] = ','.join('%s:%s' % (t, rng.choice(['part', 'subset'])) for t in rng.sample(rest, min(len(rest), rng.choice((1, 1, 2)))))
                    if len(rest) > 1 and rng.random() < .3:
                        x['sa'] = rng.choice(',+').join(rng.sample(rest, rng.choice((2, min(3, len(rest))))))
        out.append({'S': case['S'], 'nd': case['nd'], 'a': a, 'hyph': rng.choice(['', '', '_', '2']), 'one': rng.random() < .3})
    return out


# -------------------------------------------------------------------------------- CoNLL-2012
@record('conll')
def run_conll(case, rec):
    from udapi.block.read.conll2012 import Conll2012
    rec.update({'d2': [], 'c': [], 'err': '', 'texts': [], 'docs': [], 'lemmas': []})
    out = []
    cols = case['cols'].split(',')
    for D in case['D']:
        out.append('#begin document %s%s\n' % (D['raw'], case['tail']))
        for i, sent in enumerate(D['s']):
            for p, w in enumerate(sent):
                value = {'docname': D['raw'], 'ord': str(p + case['base']), 'form': w['f'], 'coref': w['c'] or '_', 'lemma': w['le'] or '_', '_': 'x'}
                out.append('\t'.join(value[c] for c in cols) + '\n')
            if case['gap'] or i < len(D['s']) - 1:
                out.append('\n')
        out.append('#end document\n')
        if rng_free(case, D):
            out.append('\n')
    doc = loaded(rec, lambda: read_with(lambda name: Conll2012(files=name, attributes=case['cols']), ''.join(out)))
    if doc is not None:
        rec['texts'] = [[n.form for n in tree.descendants] for tree in doc.trees]
        rec['lemmas'] = [[n.lemma or '_' for n in tree.descendants] for tree in doc.trees]
        rec['docs'] = [tree.newdoc or '' for tree in doc.trees]


def rng_free(case, D):
    """Is there an empty line after a document?"""
    return case['gap'] or case['blank'] or D is case['D'][-1]


def brackets(rng, n, bar):
    """Columns of a sentence: brackets of some mentions."""
    numbers = rng.sample(['1', '2', '10', '12', '3'], rng.choice((1, 2, 3)))
    at = [[[], []] for _ in range(n + 1)]
    used = []
    for _ in range(rng.choice((0, 1, 2, 4, 6))):
        a = rng.randrange(n) + 1
        b = min(n, a + rng.choice((0, 0, 1, 2, 4)))
        num = rng.choice(numbers)
        # mentions of one entity do not cross, nor are there two of the same words
        if any(x == num and ((c < a < d < b) or (a < c < b < d) or (a, b) == (c, d)) for x, c, d in used):
            continue
        used.append((num, a, b))
    for num, a, b in sorted(used, key=lambda x: (x[1], -x[2])):
        if a == b:
            at[a][1].append('(%s)' % num)
        else:
            at[a][1].append('(%s' % num)
    for num, a, b in used:
        if a != b:
            at[b][0].append('%s)' % num)
    out = []
    for z, o in at[1:]:
        rng.shuffle(z)
        if rng.random() < .5:
            rng.shuffle(o)
        q = z + o
        if bar and rng.random() < .3:
            # closing ones may be written after opening ones
            rng.shuffle(q)
        out.append(('|' if bar else '').join(q))
    return out


def conll_cases(tier, seed, stim):
    rng = random.Random('conll%s' % seed)
    out = []
    mine = [x for x in stim if 'c' in x]
    few = rng.sample(mine, min(len(mine), 5000 if tier == 'thorough' else 300))
    for i in range(5000 if tier == 'thorough' else 700):
        names = rng.sample(['d1', '10_a-b', 'A-x-1', 'Z', 'x.y'], rng.choice((1, 1, 2, 3)))
        D = []
        bar = rng.random() < .6
        for name in names:
            raw = rng.choice([name, name, '(%s);' % name, '/home/u/%s.txt' % name, name + '.txt.xml'])
            if i < len(few):
                sents = [few[i]['c']]
            else:
                sents = [brackets(rng, rng.choice((1, 2, 3, 5, 8)), bar) for _ in range(rng.choice((1, 1, 2, 3)))]
            D.append({'raw': raw, 's': [[{'f': rng.choice(['a', 'b', '(', '_', '|', 'Praha']), 'c': c, 'le': rng.choice(['', 'l'])} for c in s] for s in sents]})
        out.append({'D': D, 'cols': rng.choice(['docname,_,ord,form,_,_,_,_,_,_,_,_,coref', 'ord,form,_,_,_,_,coref', 'ord,form,lemma,_,coref', 'form,coref']), 'base': rng.choice((0, 1)), 'gap': rng.random() < .5,
                    'blank': rng.random() < .7, 'tail': rng.choice(['', ' part 0'])})
    return out


# -------------------------------------------------------------------------------- pages
class Page(HTMLParser):
    """Sentences of a page: characters with elements they are in."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.bad, self.rows, self.sents, self.docs, self.heads = [], '', [], [], [], []
        self.count = 0

    def handle_starttag(self, tag, attrs):
        if tag in ('meta', 'hr', 'br', 'input'):
            if tag == 'hr' and ('class', 'par') in attrs:
                self.heads.append('par')
            return
        attrs = dict(attrs)
        self.count += 1
        cls = (attrs.get('class') or '').split()
        self.stack.append({'n': self.count, 't': tag, 'cls': cls, 'id': attrs.get('id') or '', 'title': attrs.get('title') or ''})
        if tag == 'p' and 'sentence' in cls:
            self.sents.append({'id': attrs.get('data-id', ''), 'ch': [], 'ev': [], 'doc': self.docs[-1] if self.docs else '', 'head': self.heads})
            self.heads = []
        elif tag == 'div' and 'doc' in cls:
            self.docs.append(attrs.get('id'))
        elif tag == 'tr':
            self.rows.append([])
        elif tag == 'td':
            self.rows[-1].append('')
        elif tag == 'h1':
            self.heads.append('doc ')
        elif tag == 'span' and self.sents and 'm' in cls:
            self.sents[-1]['ev'].append(self.stack[-1])

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1]['t'] != tag:
            self.bad = self.bad or 'closing %s in %s' % (tag, '/'.join(x['t'] for x in self.stack))
        if any(x['t'] == tag for x in self.stack):
            while self.stack.pop()['t'] != tag:
                pass

    def handle_data(self, data):
        tags = [x['t'] for x in self.stack]
        if 'td' in tags:
            self.rows[-1][-1] += data
        elif 'h1' in tags:
            self.heads[-1] += data
        elif 'p' in tags:
            inside = [x for x in self.stack if 'labels' in x['cls']]
            if not inside:
                self.sents[-1]['ch'] += [(ch, list(self.stack)) for ch in data]


def view(page, forms, names):
    """Words of sentences with what they are in, and elements of mentions."""
    out = []
    for sent, words in zip(page.sents, forms):
        while sent['ch'] and sent['ch'][0][0].isspace():
            del sent['ch'][0]
        rest, at = sent['ch'][:], {e['n']: [] for e in sent['ev']}
        ws = []
        for p, (form, space) in enumerate(words, 1):
            part, rest = rest[:len(form)], rest[len(form):]
            blank, rest = rest[:space], rest[space:]
            text = ''.join(ch for ch, _ in part)
            stack = part[0][1] if part else []
            same = all([x['n'] for x in q] == [x['n'] for x in stack] for _, q in part) and all(ch == ' ' for ch, _ in blank)
            for x in stack:
                if x['n'] in at:
                    at[x['n']].append(p)
            flags = [c for x in stack for c in x['cls'] if x['t'] in 'bi' or c == 'norm']
            ws.append({'f': text if same else '?' + text, 'in': sorted(c for x in stack if x['n'] in at for c in x['cls'] if c in names), 'hd': 'head' in flags, 'em': 'empty' in flags, 'norm': flags.count('norm')})
        out.append({'id': sent['id'], 'doc': sent['doc'], 'head': [x.strip() for x in sent['head']], 'w': ws, 'rest': ''.join(ch for ch, _ in rest).strip(),
                    'ev': [{'m': ([c for c in e['cls'] if c in names] or [''])[0], 'x': ([x[4:] for x in e['title'].split('\n') if x.startswith('eid=')] or [''])[0], 'w': at[e['n']], 'id': e['id'], 'cls': sorted(c for c in e['cls'] if c not in names), 'title': e['title'].split('\n')} for e in sent['ev']]})
    return out


@record('html')
def run_html(case, rec):
    from udapi.block.write.corefhtml import CorefHtml
    rec.update({'d': [], 'bad': '', 'rows': [], 'page': [], 'files': [], 'total': 0})
    doc = coref.read(corefreports.text_of(case['S'], [['SpaceAfter=No' if x else '' for x in s['sp']] for s in case['S']]))
    coref.annotate(doc, case['d'])
    rec['d'] = coref.entities(doc)[0]
    names = {'%se%d' % (e['id'], j) for e in rec['d'] for j in range(1, len(e['ms']) + 1)}
    where = tempfile.mkdtemp(prefix='tlv')
    try:
        o = case['o']
        text = corefreports.printed(lambda: CorefHtml(docs_dir=os.path.join(where, 'docs'), show_trees=o['trees'], colors=o['colors'], rtl=o['rtl'], path_to_js=o['js']).run(doc))
        main = Page()
        # scripts and styles are not looked into
        main.feed(re.sub('(?s)<(script|style).*?</\\1>', '', text))
        pages = [main]
        files = sorted(glob.glob(os.path.join(where, 'docs', 'doc*.html.gz')), key=lambda x: (len(x), x))
        rec['files'] = [os.path.basename(x) for x in files]
        for name in files:
            with gzip.open(name, 'rt', encoding='utf-8') as f:
                pages.append(Page())
                pages[-1].feed(f.read())
        rec['total'] = int(re.search('var all_docs = (\\d+)', text).group(1))
    finally:
        shutil.rmtree(where)
    for page in pages:
        page.close()
        rec['bad'] = rec['bad'] or page.bad or ('open' if page.stack else '')
    forms = [[(f, 0 if x else 1) for f, x in zip(s['f'], s['sp'])] for s in case['S']]
    for page in pages:
        rec['page'] += view(page, forms[len(rec['page']):], names)
        rec['rows'] += [r for r in page.rows if r]


def html_cases(tier, seed, stim):
    rng = random.Random('html%s' % seed)
    out = []
    mine = [x for x in stim if 'd' in x]
    few = rng.sample(mine, min(len(mine), 4000 if tier == 'thorough' else 250))
    for i in range(5000 if tier == 'thorough' else 700):
        if i < len(few):
            n = max([m['w'][-1] for e in few[i]['d'] for m in e['ms']] + [rng.choice((2, 4))])
            S = [corefreports.more(rng, corefblocks.sentence(rng, n, empties=0), True)]
            case = {'S': S, 'd': few[i]['d']}
        else:
            case = corefreports.random_doc(rng, size=lambda: rng.choice((1, 3, 5, 7, 9, 12)))
        for s in case['S']:
            n = len(s['em'])
            s['nd'] = s['nd'] and rng.choice([s['nd'], s['nd'], ' '])
            s['f'] = [rng.choice(['a', 'b', 'the', 'Car', ',', '<', '&', '&lt;', '"', 'č']) for _ in range(n)]
            s['le'] = [rng.choice(['_', 'l', 'm', '<']) for _ in range(n)]
            s['u'] = [rng.choice(['PROPN', 'NOUN', 'NOUN', 'PRON', 'VERB', 'X']) for _ in range(n)]
            s['sp'] = [rng.random() < .2 and not s['em'][p] for p in range(n)]
        for e in case['d']:
            e['ty'] = rng.choice(['', 'person', 'person', 'place'])
            for m in e['ms']:
                m['o'] = others(rng)
        case['o'] = {'trees': rng.random() < .3, 'colors': rng.choice((7, 7, 0, 1, 2)), 'rtl': rng.random() < .3, 'js': rng.choice(['web', 'web', 'x'])}
        out.append(case)
    return out


T = 'Trace_CorefFormats'
CFG = '''SPECIFICATION Spec
CONSTANTS K = %d  M = %d  B = %d  Emit = TRUE
INVARIANTS Inv EmitInv
CHECK_DEADLOCK FALSE
'''
MC = [dict(module='MC_CorefFormats', cfg=CFG % (3, 2, 3), thorough_cfg=CFG % (4, 2, 4))]
PARTS = [Part('old', T, run_old, old_cases, mc=MC), Part('oload', T, run_oload, oload_cases), Part('conll', T, run_conll, conll_cases), Part('html', T, run_html, html_cases)]
