"""Preparing data of CorefUD for a release (specification: CorefRelease)."""
import random

import coref
import corefblocks
from text import record
from tlv.core import Part


# -------------------------------------------------------------------------------- FixToValidate
def build(S):
    """The document, keys of words."""
    from udapi.core.document import Document
    doc, keys = Document(), []
    for sent in S:
        root = doc.create_bundle().create_tree()
        root.newdoc = {'': None, 'n': 'n', '+': True}[sent['nd']]
        root.newpar = {'': None, 'p': 'p', '+': True}[sent['np']]
        nodes = [root] + [root.create_child(form='w%d' % i, lemma='l', upos=w['u'], deprel=w['d'], feats=w.get('fe')) for i, w in enumerate(sent['w'], 1)]
        for node, w in zip(nodes[1:], sent['w']):
            node.parent = nodes[w['h']]
        for t, token in enumerate(sent['tk'], 1):
            mwt = root.create_multiword_token([n for n, w in zip(nodes[1:], sent['w']) if w['t'] == t], form='t')
            mwt.misc = 'M=%d' % t
            mwt.misc['SpaceAfter'] = token['sp']
        for node, w in zip(nodes[1:], sent['w']):
            node.misc = w.get('mi')
            node.misc['SpaceAfter'] = w['sp']
            if w.get('e'):
                node.deps = [{'parent': nodes[w['e'] - 1], 'deprel': 'root'}]
        keys.append({node: i for i, node in enumerate(nodes)})
    return doc, keys


def rest(doc):
    """Everything the block is not about."""
    out = []
    for tree in doc.trees:
        for token in list(tree.descendants) + list(tree.multiword_tokens):
            out.append('%s %s' % (token.form, '|'.join(x for x in str(token.misc).split('|') if x != '_' and not x.startswith('SpaceAfter='))))
        for node in tree.descendants:
            out.append('%s %s %s %s %s' % (node.form, node.lemma, node.xpos, node.feats, [(d['parent'].ord, d['deprel']) for d in node.deps]))
    return out


@record('valid')
def run_valid(case, rec):
    from udapi.block.corefud.fixtovalidate import FixToValidate
    rec.update(S2=[], rest=[], rest2=[])
    doc, keys = build(case['S'])
    rec['rest'] = rest(doc)
    FixToValidate().run(doc)
    rec['rest2'] = rest(doc)
    for tree, mine in zip(doc.trees, keys):
        tokens = tree.multiword_tokens
        rec['S2'].append({'w': [{'h': mine[n.parent], 'd': n.deprel, 'u': n.upos, 'sp': n.misc['SpaceAfter'] or '', 't': tokens.index(n.multiword_token) + 1 if n.multiword_token else 0} for n in tree.descendants],
                          'tk': [{'sp': t.misc['SpaceAfter'] or ''} for t in tokens],
                          'nd': '+' if tree.newdoc is True else tree.newdoc or '', 'np': '+' if tree.newpar is True else tree.newpar or ''})


TAGS = ['PUNCT', 'PUNCT', 'NOUN', 'NOUN', 'VERB', 'ADJ', 'PROPN', 'CCONJ', 'X']


def heads(rng, n):
    order = list(range(1, n + 1))
    rng.shuffle(order)
    h = [0] * n
    deep = rng.random() < .5
    for i, p in enumerate(order):
        h[p - 1] = 0 if not i or rng.random() < .1 else rng.choice(order[max(0, i - 2) if deep else 0:i])
    return h


def valid_cases(tier, seed, stim):
    rng = random.Random('valid%s' % seed)
    out = []
    mine = [x for x in stim if 'w' in x]
    for x in rng.sample(mine, min(len(mine), 6000 if tier == 'thorough' else 900)):
        out.append([{'w': x['w'], 'tk': [], 'nd': '', 'np': ''}])
    mine = [x for x in stim if 'S' in x]
    out += [x['S'] for x in rng.sample(mine, min(len(mine), 8000 if tier == 'thorough' else 1100))]
    for _ in range(20000 if tier == 'thorough' else 1500):
        S = []
        for _s in range(rng.choice((1, 1, 2, 3, 4))):
            n = rng.choice((0, 1, 2, 3, 5, 8, 12))
            h = heads(rng, n)
            tk, t = [], [0] * n
            for i in range(n):
                if not t[i] and rng.random() < .15 or not t[i] and i > n - 3 and rng.random() < .3:
                    tk.append({'sp': rng.choice(['', 'No', 'No', 'Yes'])})
                    for j in range(i, min(n, i + rng.choice((1, 2, 3)))):
                        t[j] = len(tk)
            S.append({'w': [{'h': h[i], 'd': rng.choice(['root', 'root', 'dep', 'root:x', 'conj', 'punct', 'parataxis']), 'u': rng.choice(TAGS), 'sp': rng.choice(['', '', 'No', 'No', 'Yes']), 't': t[i],
                             'fe': rng.choice(['', 'A=1']), 'mi': rng.choice(['', 'X=1', 'SpacesAfter=x']), 'e': rng.choice((0, 0, rng.randrange(n + 1) + 1))} for i in range(n)],
                      'tk': tk, 'nd': rng.choice(['', '', '', '+', 'n']), 'np': rng.choice(['', '', '+', 'p'])})
        out.append(S)
    return [{'S': S} for S in out]


# -------------------------------------------------------------------------------- FixCorefUD02
GUM = 'entity-GRP-infstat-MIN-coref_type-identity'


@record('harmony')
def run_harmony(case, rec):
    from udapi.block.corefud.fixcorefud02 import FixCorefUD02
    rec.update(d=[], d2=[], head='')
    doc = corefblocks.build(case)
    rec['d'] = coref.entities(doc)[0]
    doc.meta['global.Entity'] = case['g']
    FixCorefUD02().run(doc)
    rec['d2'] = coref.entities(doc)[0]
    rec['head'] = doc.meta['global.Entity']


TYPES = ['', '_', 'misc', 'MISC', 'Date', 'loc', 'location', 'LOCATION', 'per', 'Per', 'org', 'ORG', 'person', 'place', 'organization', 'other', 'spec', 'SPEC', 'gen', 'GEN', 'Gen', 'spec.loc', 'spec.per', 'gen.org',
         'SPEC.person', 'gen.misc', 'genabstract', 'specdate', 'APPOS', 'appos', 'Appos', 'spec.appos', 'abstract', 'time', 'event', 'locations', 'perorg', 'gen._', 'person.gen', 'x.y']
RELATIONS = ['part', 'Part', 'PART-INV', 'part-inv', 'subset-inv', 'SUBSET', 'set-member', 'a-b-c', 'indirect_part', 'Indirect_Set-inv', 'x-invy', 'funct', 'inv', '-inv', 'ipart', 'a-inv-inv', 'contrast', 'anaf_x']


def harmony_cases(tier, seed, stim):
    rng = random.Random('harmony%s' % seed)
    out = []
    mine = [x['t'] for x in stim if 't' in x]
    for i in range(12000 if tier == 'thorough' else 1500):
        case = corefblocks.random_case(rng, ids=rng.sample(['e1', 'e2', 'e10', 'b', 'x_y'], rng.choice((1, 2, 3, 4))), per=(1, 1, 2, 3, 6))
        corefblocks.antecedents(rng, case)
        names = [e['id'] for e in case['d']]
        for e in case['d']:
            e['ty'] = rng.choice(mine) if i % 3 == 0 and mine else rng.choice(TYPES)
            for m in e['ms']:
                m['o'] = [{'k': k, 'v': v} for k, v in rng.sample([('gstype', 'x'), ('appos', '0'), ('infstat', 'new'), ('A', '1')], rng.choice((0, 0, 1, 2)))]
                m['b'] = [{'t': t, 'r': rng.choice(mine) if i % 3 == 1 and mine else rng.choice(RELATIONS)} for t in rng.sample(names, rng.choice((0, 0, 1, 2))) if t != e['id']] if len(names) > 2 else []
        case['g'] = rng.choice([GUM, 'eid-etype-head-other', 'eid-etype-head-infstat-minspan', 'eid-etype', GUM + '-x'])
        out.append(case)
    return out


T = 'Trace_CorefRelease'
CFG = '''SPECIFICATION Spec
CONSTANTS K = %d  M = %d  D = %d  Emit = TRUE
INVARIANTS RootInv SpaceInv LabelInv EmitInv
CHECK_DEADLOCK FALSE
'''
MC = [dict(module='MC_CorefRelease', cfg=CFG % (3, 2, 2), thorough_cfg=CFG % (3, 4, 3))]
PARTS = [Part('valid', T, run_valid, valid_cases, mc=MC), Part('harmony', T, run_harmony, harmony_cases)]
