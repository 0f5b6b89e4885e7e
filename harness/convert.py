"""Conversion of UD version 1 to 2 (specification: Convert)."""
import random

from selecting import heads
from text import record
from tlv.core import Part

SKIP = ['upos', 'upos_copula', 'deprel_simple', 'neg', 'nmod', 'feats', 'remnants', 'goeswith', 'flat', 'coord', 'text']
FEATS = [('Negative', ('Neg', 'Pos')), ('Polarity', ('Pos',)), ('PronType', ('Neg', 'Int,Neg', 'Ind')), ('Aspect', ('Pro', 'Perf')), ('VerbForm', ('Trans', 'Fin')), ('Definite', ('Red', 'Def')),
         ('Foreign', ('Foreign', 'Yes', 'Foreigner')), ('Tense', ('Nar', 'Past')), ('NumType', ('Gen', 'Card')), ('Case', ('Nom',))]
VOC = {
    'words': (['dobj', 'nsubjpass', 'nsubjpass:x', 'csubjpass', 'auxpass', 'auxpass:b', 'dobj:x:y', 'mwe', 'mwe:a', 'foreign', 'foreign:x', 'name', 'name:p', 'obj', 'cop', 'cop:x', 'neg', 'neg:x', 'dep', 'root', 'names'],
              ['X', 'CONJ', 'CCONJ', 'AUX', 'PRON', 'VERB', 'SCONJ']),
    'neg': (['neg', 'neg', 'neg', 'cop', 'dep', 'nsubj'], ['INTJ', 'INTJ', 'ADV', 'PART', 'AUX', 'DET', 'NOUN', 'VERB', 'VERB', 'ADJ']),
    'nmod': (['nmod', 'nmod', 'nmod:tmod', 'nmod:poss', 'nmod:x', 'nsubj', 'csubjpass', 'cop', 'dep', 'nmods'], ['NOUN', 'PRON', 'PROPN', 'NUM', 'DET', 'ADJ', 'ADJ', 'VERB', 'AUX', 'ADV', 'X', 'CONJ']),
    'flat': (['flat', 'flat:name', 'name', 'foreign', 'goeswith', 'goeswith', 'goeswith:x', 'dep', 'nsubj', 'flatter'], ['X']),
    'ellipsis': (['remnant', 'remnant', 'remnant', 'nsubj', 'dobj', 'nmod', 'advmod', 'iobj', 'xcomp', 'conj', 'dep', 'remnant:x', 'csubj', 'ccomp', 'advcl', 'nsubj:pass'], ['NOUN', 'VERB', 'X']),
    'coord': (['conj', 'conj', 'conj', 'cc', 'cc', 'punct', 'punct', 'punct', 'dep', 'cc:preconj', 'conj:x', 'punct:x'], ['X']),
}


def word(n, place):
    return {'h': place.get(n.parent, -1), 'f': n.form, 'l': n.lemma, 'u': n.upos, 'd': n.deprel, 'sp': n.misc['SpaceAfter'] == 'No', 'fe': [[k, v] for k, v in n.feats.items()],
            'td': n.misc['ToDo'].split(',') if n.misc['ToDo'] else [], 'od': n.misc['orig_deprel']}


def build(d):
    from udapi.core.document import Document
    doc = Document()
    trees = []
    for t in d:
        root = doc.create_bundle().create_tree()
        nodes = [root]
        for x in t['w']:
            nodes.append(root.create_child(form=x['f'], lemma=x['l'], upos=x['u'], deprel=x['d'], feats={k: v for k, v in x['fe']}))
            for name, value in (('SpaceAfter', 'No' if x['sp'] else ''), ('ToDo', ','.join(x['td'])), ('orig_deprel', x['od'])):
                if value:
                    nodes[-1].misc[name] = value
        for n, x in zip(nodes[1:], t['w']):
            n.parent = nodes[x['h']]
        root.text = t['text'] or None
        trees.append(nodes)
    return doc, trees


@record('convert')
def run_convert(case, rec):
    from udapi.block.ud.convert1to2 import Convert1to2
    rec.update(out=[], over=[])
    doc, trees = build(case['d'])
    block = Convert1to2(skip=','.join(case['skip']), save_stats=case['save'])
    if case['before']:
        block.run(build(case['before'])[0])
    block.run(doc)
    if 'todo' in doc.meta:
        lines = [line.split() for line in doc.meta['todo'].split('\n')[1:] if line]
        rec['over'] = [[name, int(count)] for name, count in lines]
    for nodes in trees:
        place = {n: i for i, n in enumerate(nodes)}
        root = nodes[0]
        rec['out'].append({'w': [word(n, place) for n in root.descendants], 'text': root.text or '', 'comment': [c for c in root.comment.split('\n') if c]})


def tree(rng, kind):
    deprels, tags = VOC[kind]
    n = rng.choice((4, 5, 6, 7) if kind in ('coord', 'nmod') and rng.random() < .6 else (1, 2, 3, 4, 5, 6, 8, 11))
    h = heads(rng, n)
    if rng.random() < (.15 if kind == 'coord' else .4):  # below one another
        order = rng.sample(range(1, n + 1), n)
        h = {k: rng.choice([0] + order[:i]) if rng.random() < .25 else ([0] + order)[i] for i, k in enumerate(order)}
    elif rng.random() < (.8 if kind == 'coord' else .5):  # a bush
        top = rng.choice((1, n, rng.randrange(1, n + 1)))
        h = {k: 0 if k == top else top if rng.random() < .7 or h[k] in (0, k) else h[k] for k in range(1, n + 1)}
        h = h if all(climbs(h, k) for k in h) else {k: 0 if k == top else top for k in h}
    some = rng.sample(deprels, min(len(deprels), rng.choice((2, 3, 4, 9))))
    w = []
    for k in range(1, n + 1):
        d = rng.choice(some)
        fe = {}
        if rng.random() < (.6 if kind in ('words', 'neg') else .1):
            fe = {name: rng.choice(values) for name, values in rng.sample(FEATS, rng.choice((1, 2, 3)))}
        w.append({'h': h[k], 'f': rng.choice(('a', 'b', 'ab', '.')), 'l': rng.choice((',', ';', ',', '.', 'l')) if kind == 'coord' else 'l', 'u': rng.choice(tags), 'd': d, 'sp': rng.random() < .3,
                  'fe': [[a, b] for a, b in sorted(fe.items())], 'td': rng.choice((['x'], ['generic'], ['neg-old', 'nmod'], ['cc-in-coordination'])) if rng.random() < .08 else [], 'od': 'old' if rng.random() < .03 else ''})
    return {'w': w, 'text': text(rng, w)}


CORRELATES = ['nsubj', 'obj', 'dobj', 'iobj', 'obl', 'nmod', 'advmod', 'csubj', 'xcomp', 'ccomp', 'advcl', 'dep', 'nsubj:pass', 'det']


def pair(a, b):
    """Two remnants, of words with the relations a and b."""
    return {'w': [{'h': h, 'f': 'a', 'l': 'l', 'u': 'VERB', 'd': d, 'sp': False, 'fe': [], 'td': [], 'od': ''} for h, d in ((0, 'root'), (1, a), (1, b), (2, 'remnant'), (3, 'remnant'))], 'text': ''}


def ellipsis(rng):
    """Remnants below words with various relations, and remnants below them."""
    n = rng.choice((5, 6, 7, 8, 10))
    order = rng.sample(range(1, n + 1), n)
    deprels = rng.sample(CORRELATES, rng.choice((2, 3, 5)))
    top, d = order[0], {order[0]: rng.choice(('root', 'nsubj', 'dep', 'conj'))}
    h = {top: 0}
    if rng.random() < .2:  # not at the top
        h[order[1]], d[order[1]] = 0, 'root'
        h[top] = order[1]
    for k in order[len(h):]:
        same = [j for j in h if d[j] not in ('root', 'remnant') and j != top]
        chain = [j for j in h if d[j] == 'remnant']
        kind = rng.random()
        if kind < .3 or not same:
            h[k], d[k] = top, rng.choice(deprels)
        elif kind < .4:
            h[k], d[k] = rng.choice(same + chain), rng.choice(deprels)
        elif kind < .65 or not chain:
            h[k], d[k] = rng.choice(same), 'remnant'
        else:
            h[k], d[k] = rng.choice(chain), 'remnant'
    w = [{'h': h[k], 'f': 'a', 'l': 'l', 'u': rng.choice(('NOUN', 'VERB')), 'd': d[k], 'sp': False, 'fe': [], 'td': [], 'od': ''} for k in range(1, n + 1)]
    return {'w': w, 'text': ''}


def climbs(h, k):
    seen = set()
    while k and k not in seen:
        seen.add(k)
        k = h[k]
    return not k


def text(rng, w):
    plain = ''.join(x['f'] + ('' if x['sp'] else ' ') for x in w).strip()
    return rng.choice(('', plain, plain, plain.replace(' ', '  ', 1), ' ' + plain, plain + ' x', plain.replace(' ', '')))


def cases(tier, seed, stim):
    rng = random.Random('convert%s' % seed)
    more = 12 if tier == 'thorough' else 1
    out = []
    by = {}
    for s in stim:
        by.setdefault(s['m'], []).append(s['w'])
    for m in sorted(by):
        for w in rng.sample(by[m], min(len(by[m]), 200 * more)):
            out.append({'d': [{'w': w, 'text': text(rng, w) if rng.random() < .3 else ''}], 'before': [], 'skip': [], 'save': True})
    for a in CORRELATES:
        out.append({'d': [pair(a, b) for b in CORRELATES], 'before': [], 'skip': [], 'save': True})
    for kind in sorted(VOC):
        for _ in range((600 if kind in ('coord', 'ellipsis', 'nmod') else 300) * more):
            make = (lambda kind: ellipsis(rng)) if kind == 'ellipsis' and rng.random() < .7 else lambda kind: tree(rng, kind)
            d = [make(kind if rng.random() < .8 else rng.choice(sorted(VOC))) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
            skip = rng.sample(SKIP, rng.choice((1, 2, 5))) if rng.random() < .25 else []
            before = [tree(rng, rng.choice(('words', 'nmod', 'coord')))] if rng.random() < .2 else []
            out.append({'d': d, 'before': before, 'skip': skip, 'save': rng.random() < .85})
    return out


CFG = '''SPECIFICATION Spec
CONSTANT N = %d
CONSTANT Emit = %s
CHECK_DEADLOCK FALSE
INVARIANT Inv SkipInv EmitInv'''
MC = [dict(module='MC_Convert', cfg=CFG % (3, 'TRUE'), thorough_cfg=CFG % (4, 'TRUE'))]
PARTS = [Part('convert', 'Trace_Convert', run_convert, cases, mc=MC)]
