"""Blocks which compare trees with gold trees and print scores (specification: Scores)."""
import contextlib
import io
import random
import re

import selecting
from text import record
from tlv.core import Part

DEPRELS = ['obj', 'aux:pass', 'case:loc', 'nsubj', 'nsubj:pass', 'det', 'case', 'punct', 'root', 'aux', 'obl:tmod', 'dep', 'clf', 'nmod']


def word(rng, k, h, forms='aAbBc'):
    return {'k': k, 'h': h, 'f': rng.choice(forms), 'l': rng.choice('lm_'), 'u': rng.choice(('NOUN', 'VERB')), 'x': rng.choice('xy'), 'd': rng.choice(DEPRELS),
            'fe': [{'k': name, 'v': rng.choice('12')} for name in ('Case', 'Dialect', 'Gender', 'NumType') if rng.random() < .3], 'mi': []}


def gold(rng, n=None, forms='aAbBc'):
    n = rng.choice((0, 1, 2, 3, 4, 6)) if n is None else n
    h = selecting.heads(rng, n)
    return [word(rng, k, h[k], forms) for k in range(1, n + 1)]


def changed(rng, w, same=False):
    """A tree like w with a few differences; with the same number of words if asked."""
    out = [dict(x, fe=list(x['fe']), mi=[]) for x in w]
    if rng.random() < .15:
        return gold(rng, len(w) if same else None)
    for _ in range(rng.choice((0, 1, 2, 3, 4))):
        if not out:
            break
        i = rng.randrange(len(out))
        x = out[i]
        how = rng.choice(('f', 'l', 'u', 'x', 'd', 'fe', 'head', 'd', 'head', 'case', 'insert', 'delete', 'rehanged', 'missing'))
        if how in 'fluxd':
            x[how] = word(rng, 1, 0)[how]
        elif how == 'fe':
            x['fe'] = word(rng, 1, 0)['fe']
        elif how == 'case':
            x['f'] = x['f'].swapcase()
        elif how == 'head':
            h = rng.choice([0] + [y['k'] for y in out])
            up, at = {y['k']: y['h'] for y in out}, h
            while at and at != x['k']:
                at = up[at]
            if not at:
                x['h'] = h
        elif how == 'insert' and not same:
            out.insert(i, word(rng, 100 + max(y['k'] for y in out), x['h']))
        elif how == 'delete' and not same:
            out.pop(i)
            for y in out:
                if y['h'] == x['k']:
                    y['h'] = x['h']
        elif how in ('rehanged', 'missing'):
            x['mi'] = [{'k': 'Rehanged' if how == 'rehanged' else 'FuncChildMissing', 'v': '1'}]
    numbers = {x['k']: n for n, x in enumerate(out, 1)}
    numbers[0] = 0
    return [dict(x, k=numbers[x['k']], h=numbers[x['h']]) for x in out]


def documents(case):
    from udapi.core.document import Document
    docs = []
    for pairs in case['docs']:
        doc = Document()
        for pair in pairs:
            bundle = doc.create_bundle()
            zones = ['p', 'g'] if not case['swap'] else ['g', 'p']
            for zone in zones + (['x'] if case['third'] else []):
                w = pair['v' if zone == 'p' else 'w']
                root = bundle.create_tree(zone)
                keys = selecting.fill(root, w)
                for node, k in keys.items():
                    node.xpos = w[k - 1]['x']
                    node.feats = '|'.join('%s=%s' % (f['k'], f['v']) for f in w[k - 1]['fe']) or '_'
                    if w[k - 1]['mi'] and w[k - 1]['mi'][0]['k'] == 'Rehanged' and zone == 'p':
                        node.misc['Rehanged'] = 1
        docs.append(doc)
    return docs


def printed(make, docs):
    """What the block prints, by lines, and the block."""
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        block = make()
        block.process_start()
        for doc in docs:
            block.apply_on_document(doc)
        block.process_end()
    return text.getvalue().split('\n'), block


def hundredths(text):
    whole, part = text.strip().split('.')
    return 100 * int(whole) + int(part)


@record('parsing')
def run_parsing(case, rec):
    from udapi.block.eval.parsing import Parsing
    rec['out'] = []
    lines, _ = printed(lambda: Parsing(gold_zone='g', zones='p' if case['zones'] or case['third'] else 'all'), documents(case))
    names = [line.split('=')[0].strip() for line in lines[:-1]]
    if names != ['nodes', 'UAS', 'LAS (deprel)', 'LAS (udeprel)']:
        rec['x'] = 'format'
    else:
        rec['out'] = [int(lines[0].split('=')[1])] + [hundredths(line.split('=')[1]) for line in lines[1:-1]]


@record('f1')
def run_f1(case, rec):
    from udapi.block.eval.f1 import F1
    rec.update(sentences=-1, lines=[], totals=[], f1=-1)
    kw = {} if case['all'] else {'focus': case['focus']}
    lines, block = printed(lambda: F1(gold_zone='g', zones='p' if case['zones'] or case['third'] else 'all', attributes=','.join(case['A']), details=case['details'], **kw), documents(case))
    rec['f1'] = round(10000 * block.f1)
    found = re.match(r'Comparing predicted trees \(zone=p\) with gold trees \(zone=g\), sentences=(\d+)$', lines.pop(0))
    rec['sentences'] = int(found.group(1))
    if case['details']:
        assert lines.pop(0) == '=== Details ===' and lines.pop(0).split() == ['token', 'pred', 'gold', 'corr', 'prec', 'rec', 'F1']
        while lines[0] != '=== Totals ===':
            token, *rest = lines.pop(0).split()
            rec['lines'].append({'t': token, 'n': [int(x) for x in rest[:3]], 'p': [hundredths(x.rstrip('%')) for x in rest[3:]]})
        lines.pop(0)
    assert [line.split('=')[0].strip() for line in lines] == ['predicted', 'gold', 'correct', 'precision', 'recall', 'F1', '']
    rec['totals'] = [int(line.split('=')[1]) for line in lines[:3]] + [hundredths(line.split('=')[1].rstrip('%')) for line in lines[3:6]]


@record('conll')
def run_conll(case, rec):
    from udapi.block.eval.conll17 import Conll17
    from udapi.block.eval.conll18 import Conll18
    rec.update(raw_lines=[], table=[], head=[])
    kw = {'zones': 'p'} if case['zones'] or case['third'] else {}
    if case['m'] == 'conll18':
        make = lambda: Conll18(gold_zone='g', print_raw=case['raw'] or 0, print_results=case['results'], print_counts=case['counts'], **kw)
    else:
        make = lambda: Conll17(gold_zone='g', print_raw=bool(case['raw']), print_results=case['results'], **kw)
    lines = printed(make, documents(case))[0][:-1]
    while lines and re.match(r'[\d ]+$', lines[0]):
        rec['raw_lines'].append([int(x) for x in lines.pop(0).split()])
    if case['results']:
        rec['head'] = [x.strip() for x in lines.pop(0).split('|')]
        lines.pop(0)
        for line in lines:
            name, *rest = [x.strip() for x in line.split('|')]
            rec['table'].append({'m': name, 'n': [(int(x) if case['counts'] else hundredths(x)) if x else -1 for x in rest]})
    elif lines:
        rec['x'] = 'printed more'


def pairs(rng, same=False, stim=None, forms='aAbBc', n=None):
    docs = []
    for _d in range(rng.choice((1, 1, 2))):
        doc = []
        for _b in range(rng.choice((1, 1, 2, 3))):
            w = gold(rng, n, forms)
            v = changed(rng, w, same)
            doc.append({'v': v, 'w': w})
        docs.append(doc)
    return {'docs': docs, 'swap': rng.random() < .3, 'third': rng.random() < .2, 'zones': rng.random() < .5}


def parsing_cases(tier, seed, stim):
    rng = random.Random('parsing%s' % seed)
    out = []
    for s in stim:
        if s['m'] == 'pair' and s['v'] and len(s['v']) >= len(s['w']):
            out.append({'docs': [[{'v': s['v'], 'w': s['w']}]], 'swap': False, 'third': False, 'zones': True})
    for _ in range(8000 if tier == 'thorough' else 800):
        case = pairs(rng, rng.random() < .95)
        if any(p['v'] for d in case['docs'] for p in d) or any(len(p['v']) != len(p['w']) for d in case['docs'] for p in d):
            out.append(case)
    return out


def f1_cases(tier, seed, stim):
    rng = random.Random('f1%s' % seed)
    out = []
    for s in rng.sample(stim, len(stim)):
        if s['m'] == 'lcs' and (tier == 'thorough' or rng.random() < .5):
            tree = [[{'k': k, 'h': 0, 'f': f, 'l': 'l', 'u': 'X', 'x': 'x', 'd': 'dep', 'fe': [], 'mi': []} for k, f in enumerate(q, 1)] for q in (s['a'], s['b'])]
            F = rng.choice(([], ['a'], ['b'], ['a', 'b']))
            out.append({'docs': [[{'v': tree[0], 'w': tree[1]}]], 'swap': False, 'third': False, 'zones': True, 'A': ['form'], 'all': not F, 'F': F, 'focus': '|'.join(F), 'details': rng.choice((0, 4))})
    for _ in range(6000 if tier == 'thorough' else 900):
        case = pairs(rng, False, forms=rng.choice(('ab', 'abc', 'aAbc')))
        if sum(len(d) for d in case['docs']) > 3:
            case['docs'] = case['docs'][:1]
        case['A'] = rng.choice((['form'], ['form'], ['form', 'upos'], ['lemma', 'deprel']))
        tokens = {'form': ['a', 'b', 'A', 'c'], 'upos': ['NOUN', 'VERB'], 'lemma': ['l', 'm', '_'], 'deprel': DEPRELS}
        every = ['']
        for a in case['A']:
            every = [e + '_' * bool(e) + t if i else t for i, e in [(bool(e), e) for e in every] for t in tokens[a]]
        F = rng.sample(every, rng.randrange(1, min(4, len(every))))
        case.update(all=rng.random() < .4, F=F, focus='|'.join(re.escape(t) for t in F), details=rng.choice((0, 1, 4, 9)))
        if len(case['A']) == 1 and rng.random() < .3:
            # a pattern which does not match whole tokens says nothing about longer ones
            case.update(F=['a', 'A'], focus='(?i)a')
        out.append(case)
    return out


RAW = ['LAS', 'UAS', 'MLAS', 'BLEX', 'CLAS', 'UPOS', 'XPOS', 'Words', 'UFeats', 'Lemmas', 'AllTags']


def conll_cases(tier, seed, stim):
    rng = random.Random('conll%s' % seed)
    out = []
    for s in stim:
        if s['m'] == 'pair':
            out.append({'docs': [[{'v': s['v'], 'w': s['w']}]], 'swap': False, 'third': False, 'zones': True, 'm': 'conll18', 'raw': rng.choice(RAW), 'results': False, 'counts': False})
    rng.shuffle(out)
    out = out[:6000 if tier == 'thorough' else 800]
    for _ in range(8000 if tier == 'thorough' else 1000):
        case = pairs(rng)
        case.update(m=rng.choice(('conll18', 'conll18', 'conll17')), raw=rng.choice([''] + RAW), results=rng.random() < .8, counts=rng.random() < .5)
        if case['m'] == 'conll17':
            case['counts'] = False
        out.append(case)
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ScoreInv LcsInv FocusInv EmitInv\nCONSTANTS M=%d K=%d Emit=TRUE\n'
MC = [dict(module='MC_Scores', cfg=CFG % (2, 3), thorough_cfg=CFG % (2, 4))]
PARTS = [
    Part('parsing', 'Trace_Scores', run_parsing, parsing_cases, mc=MC),
    Part('f1', 'Trace_Scores', run_f1, f1_cases, mc=MC),
    Part('conll', 'Trace_Scores', run_conll, conll_cases, mc=MC),
]
