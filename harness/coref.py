"""Coreference: editing, storing and loading (specifications: CorefEdit, Coref)."""
import random
import re

from text import record
from tlv.core import Part

IDS = ['', '', '', 'e1', 'e2', 'b', 'x7', 'E1', 'č', 'a b', 'e-1', 'a(b', 'c)', 'x=y', 'p|q', 'e1[1']
RELS = ['', 'part', 'subset', 'funct']
OTHERS = [('k', 'v'), ('anacata', 'x'), ('Zeta', 'y:z'), ('infstat', 'new'), ('minspan', '1,2'), ('identity', 'Praha,Brno'), ('eid', 'x'), ('head', 'yes')]


# -------------------------------------------------------------------------------- documents
def ords_of(empties):
    """empties: for every word, is it an empty node? -> ords as strings"""
    out, last, sub = [], 0, 0
    for empty in empties:
        last, sub = (last, sub + 1) if empty else (last + 1, 0)
        out.append('%d.%d' % (last, sub) if empty else str(last))
    return out


def conllu(sents, newdocs, notes=None, header=None):
    """Text of a file; sents: for every sentence the flags of empty nodes; notes: annotation of words."""
    out = []
    for s, empties in enumerate(sents):
        if newdocs[s]:
            out.append('# newdoc id = n%d' % (s + 1))
            if header:
                out.append('# global.Entity = ' + header)
        out.append('# sent_id = s%d' % (s + 1))
        for p, ord_ in enumerate(ords_of(empties)):
            misc = []
            if notes:
                misc = ['%s=%s' % (name, notes[s][p][key]) for key, name in (('b', 'Bridge'), ('e', 'Entity'), ('s', 'SplitAnte')) if notes[s][p][key]]
            head, deprel, deps = ('_', '_', '0:root') if '.' in ord_ else ('0', 'root', '_') if ord_ == '1' else ('1', 'dep', '_')
            out.append('\t'.join([ord_, 'w' + ord_, 'l', 'NOUN', '_', '_', head, deprel, deps, '|'.join(misc) or '_']))
        out.append('')
    return '\n'.join(out) + '\n'


def read(text):
    from udapi.core import coref
    from udapi.core.document import Document
    coref.highest_doc_n = 0
    doc = Document()
    doc.from_conllu_string(text)
    return doc


def words_of(doc):
    return [tree.descendants_and_empty for tree in doc.trees]


def places(words):
    return {node: (s, p) for s, sent in enumerate(words, 1) for p, node in enumerate(sent, 1)}


def pairs(text):
    """Attributes written as text, sorted by name."""
    out = []
    for part in text.split(',') if text else []:
        name, colon, value = part.partition(':')
        out.append({'k': name, 'v': value if colon else '~'})
    return sorted(out, key=lambda x: x['k'].lower())


def entities(doc):
    """Everything there is, and mentions of words as pairs (entity, mention)."""
    words = words_of(doc)
    place, out, names = places(words), [], {}
    for i, entity in enumerate(doc.coref_entities, 1):
        ms = []
        for j, mention in enumerate(entity.mentions, 1):
            names[mention] = (i, j)
            if mention.entity is not entity:
                raise ValueError('a mention does not know its entity')
            where = [place[w] for w in mention.words]
            ms.append({'s': where[0][0], 'w': [p for _, p in where], 'h': place[mention.head][1], 'o': pairs(str(mention.other)),
                       'b': [{'t': link.target.eid, 'r': link.relation} for link in mention.bridging]})
        out.append({'id': entity.eid, 'ty': entity.etype or '', 'ms': ms, 'sa': [e.eid for e in entity.split_ante]})
    return out, [[[list(names[m]) if m in names else [0, 0] for m in node.coref_mentions] for node in sent] for sent in words]


def notes_of(text):
    """Annotation of words in a file."""
    out = []
    for block in text.strip('\n').split('\n\n'):
        sent = []
        for line in block.split('\n'):
            if line.startswith('#'):
                continue
            misc = dict(x.split('=', 1) for x in line.split('\t')[9].split('|') if '=' in x)
            sent.append({'e': misc.get('Entity', ''), 'b': misc.get('Bridge', ''), 's': misc.get('SplitAnte', '')})
        out.append(sent)
    return out


# -------------------------------------------------------------------------------- editing
class Editor:
    """A document and a history of its coreference."""

    def __init__(self, sents):
        self.sents = sents
        self.doc = read(conllu(sents, [True] + [False] * (len(sents) - 1)))
        self.words = words_of(self.doc)
        self.place = places(self.words)
        self.ents, self.mens, self.dead = [], [], set()
        self.doc.coref_entities  # loads

    def state(self):
        out = {'e': [{'id': e.eid, 'ty': e.etype or ''} for e in self.ents], 'm': []}
        number = {e: i for i, e in enumerate(self.ents, 1)}
        for k, m in enumerate(self.mens):
            where = [self.place[w] for w in m.words]
            out['m'].append({'e': 0 if k in self.dead else number[m.entity], 's': where[0][0], 'w': [p for _, p in where], 'h': self.place[m.head][1],
                             'o': pairs(str(m.other)), 'b': [{'t': number[target], 'r': relation} for target, relation in m.bridging]})
        return out

    def views(self):
        key = {m: k for k, m in enumerate(self.mens, 1)}
        number = {e: i for i, e in enumerate(self.ents, 1)}
        return {'c': [[[key.get(m, 0) for m in n.coref_mentions] for n in sent] for sent in self.words],
                'ce': [[[number[e] for e in n.coref_entities] for n in sent] for sent in self.words],
                'ms': [[key.get(m, 0) for m in e.mentions] for e in self.ents],
                'all': [key.get(m, 0) for m in self.doc.coref_mentions],
                'sp': [m.span for m in self.mens],
                'ids': [e.eid for e in self.doc.coref_entities]}

    def apply(self, do):
        """Do one operation; returns what it says."""
        op = do['op']
        if op == 'ent':
            self.ents.append(self.doc.create_coref_entity(do['id'] or None, do['ty'] or None))
        elif op == 'men':
            sent = self.words[do['s'] - 1]
            self.mens.append(self.ents[do['e'] - 1].create_mention(head=sent[do['h'] - 1] if do['h'] else None,
                                                                   words=[sent[p - 1] for p in do['ws']] or None, span=do['sp'] or None))
        else:
            m = self.mens[do['m'] - 1]
            sent = self.words[self.place[m.head][0] - 1]
            if op == 'words':
                m.words = [sent[p - 1] for p in do['ws']]
            elif op == 'span':
                m.span = do['sp']
            elif op == 'head':
                m.head = sent[do['h'] - 1]
            elif op == 'move':
                m.entity = self.ents[do['e'] - 1]
            elif op == 'remove':
                m.remove()
                self.dead.add(do['m'] - 1)
            elif op == 'other':
                m.other[do['k']] = do['v']
            elif op == 'text':
                m.other = do['v']
            elif op == 'bridge':
                link = (self.ents[do['e'] - 1], do['r'])
                if do['i'] > len(m.bridging):
                    m.bridging.append(link)
                else:
                    m.bridging[do['i'] - 1] = link
            elif op == 'unbridge':
                del m.bridging[do['i'] - 1]
            elif op == 'select':
                number = {e: i for i, e in enumerate(self.ents, 1)}
                return [number[e] for e in m.bridging('|'.join(do['R'])).targets]
        return []


def step(editor, do, emit, ords):
    rec = {'k': 'hist', 'op': 'step', 'do': do, 'x': '', 'ords': ords, 'pre': editor.state(), 'v0': editor.views(), 'got': []}
    try:
        rec['got'] = editor.apply(do)
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    rec['post'], rec['v'] = editor.state(), editor.views()
    emit(rec)


def run_all(case, emit):
    """The history leads to a state of the specification; then every one of the operations is tried."""
    sents = [[False] * (case['n'] - 1) + [True]]
    ords = [ords_of(s) for s in sents]
    for do in case['todo']:
        editor = Editor(sents)
        for old in case['hist']:
            try:
                editor.apply(old)
            except ValueError:
                pass
        step(editor, do, emit, ords)


def some_span(rng, ords):
    """A subset of words of a sentence, mostly without gaps."""
    n = len(ords)
    a = rng.randrange(n)
    b = min(n - 1, a + rng.choice((0, 0, 1, 1, 2, 3)))
    q = list(range(a + 1, b + 2))
    if rng.random() < .3:
        c = rng.randrange(n)
        q += [p for p in range(c + 1, min(n, c + 2) + 1) if p not in q]
    return q


def span_text(ords, q):
    """A span with these words, not always the shortest one."""
    return ','.join(ords[p - 1] for p in q)


def ranges(ords, q):
    q, out = sorted(q), []
    for p in q:
        if out and out[-1][1] == p - 1:
            out[-1][1] = p
        else:
            out.append([p, p])
    return ','.join(ords[a - 1] if a == b else ords[a - 1] + '-' + ords[b - 1] for a, b in out)


def random_do(rng, editor, ords):
    live = [k for k in range(1, len(editor.mens) + 1) if k - 1 not in editor.dead]
    ents = len(editor.ents)
    op = rng.choice(['ent', 'men', 'men', 'men'] if not live else
                    ['ent', 'men', 'men', 'men', 'words', 'words', 'span', 'head', 'move', 'remove', 'other', 'other', 'text', 'bridge', 'bridge', 'bridge', 'unbridge', 'select'])
    if not ents or op == 'ent':
        return {'op': 'ent', 'id': rng.choice(IDS), 'ty': rng.choice(['', 'person'])}
    if op == 'men':
        s = rng.randrange(len(ords)) + 1
        q = some_span(rng, ords[s - 1])
        rng.shuffle(q)
        how = rng.choice(['head', 'words', 'words', 'both', 'span', 'span', 'all', 'none', 'dup'])
        h = rng.choice(q) if rng.random() < .85 else rng.randrange(len(ords[s - 1])) + 1
        do = {'op': 'men', 'e': rng.randrange(ents) + 1, 's': s, 'h': h, 'ws': q, 'sp': ''}
        if how == 'head':
            do['ws'] = []
        elif how == 'words':
            do['h'] = 0
        elif how == 'span':
            do['ws'], do['sp'] = [], rng.choice([ranges, span_text])(ords[s - 1], q)
        elif how == 'all':
            do['sp'] = ranges(ords[s - 1], q)
        elif how == 'none':
            do['h'], do['ws'] = 0, []
            if rng.random() < .5:
                do['sp'] = ranges(ords[s - 1], q)
        elif how == 'dup':
            do['ws'] = q + q[:1]
        return do
    m = rng.choice(live)
    mention = editor.mens[m - 1]
    s = editor.place[mention.head][0]
    if op in ('words', 'span'):
        q = some_span(rng, ords[s - 1])
        if rng.random() < .85 and editor.place[mention.head][1] not in q:
            q.append(editor.place[mention.head][1])
        rng.shuffle(q)
        if op == 'span' and rng.random() < .15:
            return {'op': op, 'm': m, 'sp': rng.choice(['x', '1-', '1,', '1-2-3', 'a-b'])}
        return {'op': op, 'm': m, 'ws': q} if op == 'words' else {'op': op, 'm': m, 'sp': rng.choice([ranges, span_text])(ords[s - 1], q)}
    if op == 'head':
        return {'op': op, 'm': m, 'h': rng.randrange(len(ords[s - 1])) + 1}
    if op == 'move':
        return {'op': op, 'm': m, 'e': rng.randrange(ents) + 1}
    if op == 'remove':
        return {'op': op, 'm': m}
    if op == 'other':
        k, v = rng.choice(OTHERS)
        return {'op': op, 'm': m, 'k': k, 'v': rng.choice([v, v, 'a,b', ''])}
    if op == 'text':
        return {'op': op, 'm': m, 'v': rng.choice(['', 'a:1', 'b:2,a:1', 'name', 'k:v:w,z', 'a:1,c'])}
    count = len(mention.bridging)
    if op == 'bridge' or (op == 'unbridge' and not count):
        # not to its own entity, unless there is no other or for a change
        e = rng.randrange(ents) + 1
        return {'op': 'bridge', 'm': m, 'i': rng.randrange(count + 1) + 1, 'e': e, 'r': rng.choice(RELS)}
    if op == 'unbridge':
        return {'op': op, 'm': m, 'i': rng.randrange(count) + 1}
    return {'op': 'select', 'm': m, 'R': rng.sample(RELS[1:], rng.choice((1, 1, 2)))}


def run_hist(case, emit):
    rng = random.Random(case['seed'])
    sents = [[p > 0 and rng.random() < .25 for p in range(rng.choice((1, 2, 4, 6)))] for _ in range(rng.choice((1, 1, 2)))]
    ords = [ords_of(s) for s in sents]
    editor = Editor(sents)
    for _ in range(case['steps']):
        step(editor, random_do(rng, editor, ords), emit, ords)


def moves(n, hist):
    """Operations to be tried after a history."""
    ents = mens = 0
    ords = ords_of([False] * (n - 1) + [True])
    sets = [[p + 1 for p in range(n) if bits >> p & 1] for bits in range(1, 1 << n)]
    out = [{'op': 'ent', 'id': i, 'ty': 'x'} for i in ('', 'b', 'e1', 'x y', '(')]
    ids = []
    for do in hist:
        if do['op'] == 'ent' and do['id'] not in ids and ' ' not in do['id']:
            new = do['id']
            if not new:
                new = next('e%d' % i for i in range(1, 9) if 'e%d' % i not in ids)
            ids.append(new)
            ents += 1
        elif do['op'] == 'men':
            mens += 1
    dead = [do['m'] for do in hist if do['op'] == 'remove']
    for e in range(1, ents + 1):
        out += [{'op': 'men', 'e': e, 's': 1, 'h': h, 'ws': q[::-1], 'sp': ''} for q in sets for h in range(n + 1)]
        out += [{'op': 'men', 'e': e, 's': 1, 'h': h, 'ws': [], 'sp': ranges(ords, q)} for q in sets for h in range(1, n + 1)]
    for m in range(1, mens + 1):
        if m not in dead:
            out += [{'op': 'words', 'm': m, 'ws': q} for q in sets] + [{'op': 'span', 'm': m, 'sp': ranges(ords, q)} for q in sets]
            out += [{'op': 'head', 'm': m, 'h': h} for h in range(1, n + 1)] + [{'op': 'move', 'm': m, 'e': e} for e in range(1, ents + 1)]
            out += [{'op': 'remove', 'm': m}]
    return out


def all_cases(tier, seed, stim):
    rng = random.Random('corefall%s' % seed)
    out = []
    for s in stim:
        hist = s['hist']
        # mentions which the specification refused do not count
        todo = moves(s['n'], hist)
        out.append({'n': s['n'], 'hist': hist, 'todo': rng.sample(todo, min(len(todo), 8 if tier == 'thorough' else 3))})
    return out


def hist_cases(tier, seed, _stim):
    return [{'seed': 'coref%s-%d' % (seed, i), 'steps': 25} for i in range(2000 if tier == 'thorough' else 400)]


# -------------------------------------------------------------------------------- storing and loading
def build(case):
    """A document with the entities, made through objects."""
    doc = read(conllu(case['em'], case['nd']))
    made = annotate(doc, case['d'])
    for i in case.get('gone', []):
        made[i].remove()
    doc.meta['global.Entity'] = '-'.join(case['f'])
    return doc


def annotate(doc, d):
    """Create the entities through objects."""
    words = words_of(doc)
    ents = {}
    for e in d:
        ents[e['id']] = doc.create_coref_entity(e['id'], e['ty'] or None)
    made = []
    for e in d:
        for m in e['ms']:
            sent = words[m['s'] - 1]
            mention = ents[e['id']].create_mention(head=sent[m['h'] - 1], words=[sent[p - 1] for p in m['w']])
            for pair in m['o']:
                if pair['v'] == '~':
                    mention.other = ','.join(filter(None, [str(mention.other), pair['k']]))
                else:
                    mention.other[pair['k']] = pair['v']
            for link in m['b']:
                mention.bridging.append((ents[link['t']], link['r']))
            made.append(mention)
    for e in d:
        ents[e['id']].split_ante = [ents[t] for t in e['sa']]
    return made


def store(doc, rec):
    """Write the document, read it again."""
    text = doc.to_conllu_string()
    rec['a'] = notes_of(text)
    rec['heads'] = 1 if '# global.Entity = ' in text else 0
    try:
        back = read(text)
        rec['back'] = {'d': entities(back)[0], 'x': ''}
    except Exception as error:  # pylint: disable=broad-except
        rec['back'] = {'d': [], 'x': '%s: %s' % (type(error).__name__, error)}


def blank(case, rec):
    rec.update({'n': [len(s) for s in case['em']], 'docs': [''] * len(case['em']), 'grp': 'GRP' in case['f'],
                'd': [], 'a': [[{'e': '', 'b': '', 's': ''} for _ in s] for s in case['em']], 'c': [], 'back': {'d': [], 'x': 'none'}, 'heads': 0})
    if rec['grp']:
        number = 0
        for s, new in enumerate(case['nd']):
            number += new or s == 0
            rec['docs'][s] = 'd%d.' % number


@record('store')
def run_store(case, rec):
    blank(case, rec)
    doc = build(case)
    rec['d'] = entities(doc)[0]
    store(doc, rec)


@record('load')
def run_load(case, rec):
    blank(case, rec)
    rec['lx'] = ''
    doc = read(conllu(case['em'], case['nd'], case['a0'], '-'.join(case['f']) if case['head'] else None))
    try:
        doc.coref_entities  # loads
    except Exception as error:  # pylint: disable=broad-except
        rec['lx'] = '%s: %s' % (type(error).__name__, error)
        return
    rec['d'], rec['c'] = entities(doc)
    store(doc, rec)


FIELDS = [['eid', 'etype', 'head', 'other'], ['eid', 'etype', 'head', 'minspan', 'infstat', 'other'], ['head', 'eid', 'etype', 'other'], ['eid', 'head'],
          ['eid'], ['eid', 'etype', 'minspan', 'other', 'head'], ['eid', 'etype', 'head', 'infstat', 'minspan', 'link', 'identity'],
          ['other', 'eid', 'etype', 'head', 'identity'], ['eid', 'other'], ['eid', 'minspan', 'infstat', 'head', 'etype', 'other']]


def random_doc(rng, fields):
    count = rng.choice((1, 1, 2, 3))
    em = [[p > 0 and rng.random() < .2 for p in range(rng.choice((1, 2, 3, 5, 8)))] for _ in range(count)]
    ids = rng.sample(['e1', 'e2', 'e10', 'b', 'E1', 'č3', 'x', 'd1', 'date'], rng.choice((1, 2, 3, 4, 5)))
    d = []
    for name in ids:
        ms = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            s = rng.randrange(count) + 1
            w = sorted(some_span(rng, [0] * len(em[s - 1])))
            o = [{'k': k, 'v': v} for k, v in rng.sample(OTHERS, rng.choice((0, 0, 1, 2, 3)))]
            if rng.random() < .2:
                o = [{'k': 'flag', 'v': '~'}] + o
            b = [{'t': rng.choice(ids), 'r': rng.choice(RELS)} for _ in range(rng.choice((0, 0, 0, 1, 2)))] if len(ids) > 1 else []
            ms.append({'s': s, 'w': w, 'h': rng.choice(w), 'o': o, 'b': [x for x in b if x['t'] != name]})
        others = [i for i in ids if i != name]
        sa = rng.sample(others, min(len(others), rng.choice((0, 0, 0, 2, 2, 3))))
        d.append({'id': name, 'ty': rng.choice(['', 'person', 'place']), 'ms': ms, 'sa': sa})
    case = {'em': em, 'nd': [s == 0 or rng.random() < .3 for s in range(count)], 'd': d, 'f': fields}
    total = sum(len(e['ms']) for e in d)
    case['gone'] = sorted(rng.sample(range(total), rng.choice((0, 0, 1, min(2, total)))))
    return case


def store_cases(tier, seed, stim):
    rng = random.Random('corefstore%s' % seed)
    out = []
    for s in stim:
        n = max([4 if tier == 'thorough' else 3] + [max(m['w']) for e in s['d'] for m in e['ms']])
        out.append({'em': [[False] * n], 'nd': [True], 'd': s['d'], 'f': FIELDS[0]})
    out = rng.sample(out, min(len(out), 5000 if tier == 'thorough' else 800))
    for _ in range(5000 if tier == 'thorough' else 1500):
        out.append(random_doc(rng, rng.choice(FIELDS)))
    return out


def chunk(case, entity, mention, name):
    """An opening bracket with the fields of the header."""
    other = {x['k']: x['v'] for x in mention['o']}
    values = []
    for field in case['f']:
        if field in ('eid', 'GRP'):
            values.append(name)
        elif field in ('etype', 'entity'):
            values.append(entity['ty'])
        elif field == 'head':
            values.append(str(mention['w'].index(mention['h']) + 1))
        elif field == 'other':
            rest = [(k, v) for k, v in other.items() if k not in case['f'] or k in ('eid', 'head')]
            values.append(','.join(k if v == '~' else k + ':' + v.replace(',', '%2C') for k, v in sorted(rest, key=lambda x: x[0].lower())))
        else:
            values.append('' if other.get(field) == '~' else other.get(field, ''))
    while values and not values[-1]:
        values.pop()
    return '(' + '-'.join(values)


def annotation(rng, case):
    """Annotation of the entities; brackets are mostly well nested, otherwise in some order."""
    opens, closes, singles, links = {}, {}, {}, {}
    for entity in case['d']:
        for mention in entity['ms']:
            runs = []
            for p in mention['w']:
                if runs and runs[-1][-1] == p - 1:
                    runs[-1].append(p)
                else:
                    runs.append([p])
            for i, run in enumerate(runs, 1):
                name = entity['id'] + ('[%d/%d]' % (i, len(runs)) if len(runs) > 1 else '')
                text, s = chunk(case, entity, mention, name), mention['s']
                if len(run) == 1:
                    singles.setdefault((s, run[0]), []).append(text + ')')
                else:
                    opens.setdefault((s, run[0]), []).append((-len(run), text))
                    closes.setdefault((s, run[-1]), []).append((len(run), name + ')'))
            if mention['b']:
                links.setdefault((mention['s'], mention['w'][0]), []).extend('%s<%s%s' % (x['t'], entity['id'], x['r'] and ':' + x['r']) for x in mention['b'])
    out, wild = [], rng.random() < .15
    for s, sent in enumerate(case['em'], 1):
        notes = []
        for p in range(1, len(sent) + 1):
            c, o = ([t for _, t in sorted(q.get((s, p), []))] for q in (closes, opens))
            if wild:
                rng.shuffle(c)
            z, first = ''.join(singles.get((s, p), [])), rng.random() < .5
            notes.append({'e': ''.join(([z] if first else []) + c + o + ([] if first else [z])), 'b': ','.join(links.get((s, p), [])), 's': ''})
        out.append(notes)
    for entity in case['d']:
        if entity['sa'] and entity['ms']:
            m = min(entity['ms'], key=lambda x: (x['s'], x['w'][0]))
            x = out[m['s'] - 1][m['w'][0] - 1]
            x['s'] = ','.join(filter(None, [x['s']] + ['%s<%s' % (t, entity['id']) for t in entity['sa']]))
    return out


def spoil(rng, a, grp):
    """Make a small change of the annotation."""

    places_ = [(s, p) for s, sent in enumerate(a) for p, x in enumerate(sent) if x['e']]
    if not places_:
        return
    s, p = rng.choice(places_)
    x = a[s][p]
    chunks = [c for c in re.split(r'(\([^()]+\)?|[^()]+\))', x['e']) if c]
    i = rng.randrange(len(chunks))
    how = rng.choice(['drop', 'drop', 'double', 'head', 'type', 'swap', 'move', 'bridge', 'split', 'subspan', 'unclosed', 'opened', 'self', 'last', 'last'])
    if how == 'drop':
        chunks.pop(i)
    elif how == 'double':
        chunks.insert(i, chunks[i])
    elif how == 'head':
        chunks[i] = re.sub(r'-\d', rng.choice(['-7', '-x', '-1', '-2', '']), chunks[i])
    elif how == 'type':
        chunks[i] = re.sub(r'person|place', rng.choice(['person', 'thing', '']), chunks[i])
    elif how == 'swap' and len(chunks) > 1:
        j = rng.randrange(len(chunks))
        chunks[i], chunks[j] = chunks[j], chunks[i]
    elif how == 'move':
        s2, p2 = rng.choice(places_)
        if (s2, p2) != (s, p):
            a[s2][p2]['e'] += chunks.pop(i)
    elif how == 'subspan':
        chunks[i] = re.sub(r'\[\d/\d\]', rng.choice(['[2/2]', '[1/2]', '[1/3]', '']), chunks[i])
    elif how == 'unclosed':
        chunks.append('(zz')
    elif how == 'opened':
        chunks.insert(0, 'zz)')
    x['e'] = ''.join(chunks)
    if how == 'last':                                       # heads of last pieces of discontinuous mentions
        for s, p in places_:
            a[s][p]['e'] = re.sub(r'(\[(\d)/\2\][^()]*)-\d', rng.choice([r'\1-9', r'\1-3', r'\1-2', r'\1-x']), a[s][p]['e'])
    if how == 'bridge':
        x['b'] = ','.join(filter(None, [x['b'], rng.choice(['e1<e2', 'e2<e1:part', 'b<b', 'u<b', 'b<u', 'e1', 'e1<e2<b', 'b<e1:a:b'])]))
    elif how == 'split':
        x['s'] = ','.join(filter(None, [x['s'], rng.choice(['e1<e2', 'e2<e1', 'b<b', 'u<b', 'b<u', 'e1', 'b<e1,e2<e1'])]))


def load_cases(tier, seed, _stim):
    rng = random.Random('corefload%s' % seed)
    out = []
    for _ in range(5000 if tier == 'thorough' else 1500):
        fields = rng.choice(FIELDS)
        case = random_doc(rng, fields)
        if rng.random() < .3:
            case['f'] = ['GRP' if f == 'eid' else 'entity' if f == 'etype' and rng.random() < .3 else f for f in fields]
        a = annotation(rng, case)
        for _n in range(rng.choice((0, 0, 1, 1, 2))):
            spoil(rng, a, 'GRP' in case['f'])
        if any(re.search(r'\][^()]*\[', x['e']) for q in a for x in q):
            continue  # IDs with two brackets are not promised
        out.append({'em': case['em'], 'nd': case['nd'], 'f': case['f'], 'a0': a, 'head': rng.random() < .97})
    return out


MC_EDIT = [dict(module='MC_CorefEdit', cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANTS MentionInv IdInv SpanInv OrderInv EmitInv\nCONSTANTS N=2 M=2 Emit=TRUE\n',
                thorough_cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANTS MentionInv IdInv SpanInv OrderInv EmitInv\nCONSTANTS N=3 M=2 Emit=TRUE\n')]
CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS RoundTrip EmitInv\nCONSTANTS N=%d M=%d Emit=TRUE\n'
MC_STORE = [dict(module='MC_Coref', cfg=CFG % (3, 2), thorough_cfg=CFG % (4, 3))]

PARTS = [
    Part('edit-all', 'Trace_Coref', run_all, all_cases, mc=MC_EDIT),
    Part('edit-hist', 'Trace_Coref', run_hist, hist_cases),
    Part('store', 'Trace_Coref', run_store, store_cases, mc=MC_STORE),
    Part('load', 'Trace_Coref', run_load, load_cases),
]
