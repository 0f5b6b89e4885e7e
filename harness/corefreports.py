"""Blocks which search and report coreference (specification: CorefReport)."""
import contextlib
import io
import logging
import random
import re

import coref
import corefblocks
from text import record
from tlv.core import Part

UPOS = ['NOUN', 'PRON', 'VERB', 'ADP', 'PUNCT', 'X', '_']
DEPRELS = ['dep', 'obj', 'case', 'punct', 'cop', 'mark', 'conj', 'appos', 'advmod:emph', 'nsubj:pass', 'advmod', 'punct:x', 'case:loc']
FORMS = ['a', 'b', 'the', 'The', 'car', ',']


# -------------------------------------------------------------------------------- documents
def text_of(S, misc=None):
    out = []
    for s, sent in enumerate(S, 1):
        ords = coref.ords_of(sent['em'])
        if sent['nd']:
            out.append('# newdoc id = %s' % sent['nd'] if sent['nd'].strip() else '# newdoc')
        if sent['np']:
            out.append('# newpar')
        out.append('# sent_id = s%d' % s)
        at = lambda p: ords[p - 1] if p else '0'  # pylint: disable=cell-var-from-loop
        for p, ord_ in enumerate(ords, 1):
            empty = sent['em'][p - 1]
            deps = sorted(sent['d'][p - 1], key=lambda x: (float(at(x['p'])), x['r']))  # pylint: disable=cell-var-from-loop
            out.append('\t'.join([ord_, sent['f'][p - 1], sent['le'][p - 1], sent['u'][p - 1], '_', '_', '_' if empty else at(sent['h'][p - 1]), '_' if empty else sent['dl'][p - 1],
                                  '|'.join('%s:%s' % (at(x['p']), x['r']) for x in deps) or '_', (misc[s - 1][p - 1] if misc else '') or '_']))
        out.append('')
    return '\n'.join(out) + '\n'


def build(S, d):
    doc = coref.read(text_of(S))
    coref.annotate(doc, d)
    return doc


def printed(run):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        run()
    return out.getvalue()


def words_of(doc):
    return [tree.descendants_and_empty for tree in doc.trees]


# -------------------------------------------------------------------------------- pairs
PAIRS = ['same_entity', 'same_head', 'both_continuous', 'both_discontinuous', 'same_span', 'same_subspan', 'nested', 'crossing', 'interleaved']


@record('pairs')
def run_pairs(case, rec):
    from udapi.block.corefud.markpairs import MarkPairs
    rec.update({'marks': [], 'labels': [], 'msg': []})
    doc = build(case['S'], case['d'])
    rec['d'] = coref.entities(doc)[0]
    o = case['o']
    words = {-1: ['exclude', -1], 0: ['include', 0], 1: ['only', 1]}
    options = {k: words[o[k]][n % 2] for n, k in enumerate(PAIRS)}
    logging.disable(logging.CRITICAL)
    try:
        MarkPairs(print_form=o['form'], print_total=o['total'], mark=o['mark'], log=o['log'], **options).run(doc)
    finally:
        logging.disable(logging.NOTSET)
    for s, nodes in enumerate(words_of(doc), 1):
        rec['marks'].append([p for p, n in enumerate(nodes, 1) if n.misc['Mark']])
        rec['labels'] += [{'s': s, 'p': p, 't': n.misc['Mark']} for p, n in enumerate(nodes, 1) if n.misc['Mark'] not in ('', '1', 1)]
    found = re.findall(r'\d+', doc.meta.get('corefud.MarkPairs', ''))
    rec['msg'] = [int(x) for x in found]


# -------------------------------------------------------------------------------- mentions
WAYS = {-1: 'exclude', 0: 'include', 1: 'only'}
KINDS = ['singleton', 'oneword', 'continuous', 'almost_continuous', 'empty', 'treelet', 'forest', 'almost_forest']


@record('mentions')
def run_mentions(case, rec):
    from udapi.block.corefud.printmentions import PrintMentions
    rec.update({'out': [], 'close': [], 'left': 0})
    doc = build(case['S'], case['d'])
    rec['d'] = coref.entities(doc)[0]
    o = case['o']

    def work():
        PrintMentions(max_trees=o['max'], print_total=o['total'], shuffle=o['shuffle'], print_other_forms=o['others'], color=0, attributes='ord,misc', print_text=0,
                      print_doc_meta=0, print_should=o['should'], html=False, **{k: WAYS[o[k]] for k in KINDS}).run(doc)
    number = [{n.ord: p for p, n in enumerate(nodes, 1)} for nodes in words_of(doc)]
    last = None
    for line in printed(work).split('\n'):
        if line.startswith('# Mention = '):
            last = {'line': line, 'other': '', 's': 0, 'w': []}
            rec['out'].append(last)
        elif line.startswith('########'):
            rec['close'].append(line)
        elif 'other forms:' in line:
            last['other'] = line
        elif line.startswith('# sent_id = s'):
            last['s'] = int(line[13:])
        elif line:
            found = re.search(r'\*\*([0-9.]+)', line)
            if found:
                last['w'].append(number[last['s'] - 1][float(found.group(1))])
    rec['left'] = sum(1 for nodes in words_of(doc) for n in nodes if n.misc['Mark'])


# -------------------------------------------------------------------------------- entities
@record('entities')
def run_entities(case, rec):
    from udapi.block.corefud.printentities import PrintEntities
    rec['out'] = []
    doc = build(case['S'], case['d'])
    rec['d'] = coref.entities(doc)[0]
    o = case['o']
    text = printed(lambda: PrintEntities(eid_re=o['start'], min_mentions=o['least'], print_ranges=o['ranges'], mark_head=o['mark'], aggregate_mentions=o['aggregate']).run(doc))
    rec['out'] = [line for line in text.split('\n')[:-1] if not line.startswith('Coref entities in document')]


# -------------------------------------------------------------------------------- numbers
@record('stats')
def run_stats(case, rec):
    from udapi.block.corefud.stats import Stats
    rec['out'] = []
    o = case['o']
    docs = [build(x['S'], x['d']) for x in case['docs']]
    block = Stats(m_len_max=o['mmax'], e_len_max=o['emax'], report_basics=o['basics'], report_mentions=o['mentions'], report_entities=o['entities'], report_details=o['details'],
                  selected_upos=' '.join(o['upos']), exclude_singletons=o['nosingle'], exclude_nonsingletons=o['nomore'], style=o['style'])

    def work():
        for doc in docs:
            block.before_process_document(doc)
            block.process_document(doc)
            block.after_process_document(doc)
        block.process_end()
    text = printed(work)
    if o['style'] == 'human':
        rec['out'] = [[x.strip() for x in line.split(' = ')] for line in text.split('\n')[:-1]]
    else:
        rec['out'] = [['', x.strip()] for x in text.strip().rstrip('\\').split('&')] if text.strip() != '\\\\' else []
    rec['out'] = [[name, value.replace(',', '')] for name, value in rec['out']]


@record('gaps')
def run_gaps(case, rec):
    from udapi.block.corefud.countgaps import CountGaps
    rec['out'] = []
    o = case['o']
    docs = [build(x['S'], x['d']) for x in case['docs']]
    block = CountGaps(report_per_newdoc=o['newdoc'], report_per_file=o['file'], report_total=o['total'])

    def work():
        for doc in docs:
            block.process_document(doc)
        block.process_end()
    for line in printed(work).split('\n')[:-1]:
        head = re.match(r'=+ (SEQ|PAR) STATS(?: in|,) (.*) =+$', line)
        if head:
            rec['out'].append({'kind': head.group(1), 'label': head.group(2), 'rows': [], 'sum': -1})
        elif line.startswith('SUM: '):
            rec['out'][-1]['sum'] = int(line[5:])
        elif line != '-------':
            rec['out'][-1]['rows'].append([int(x) for x in line.split(':')])


# -------------------------------------------------------------------------------- MISC
@record('misc')
def run_misc(case, rec):
    import importlib
    rec.update({'out': [], 'q': []})
    o = case['o']
    S = case['S']
    misc, k = [], 0
    for s in S:
        misc.append(['|'.join('%s=%s' % tuple(x) for x in case['m'][k + p]) for p in range(len(s['em']))])
        k += len(s['em'])
    doc = coref.read(text_of(S, misc))
    nodes = [n for row in words_of(doc) for n in row]
    if o['b'] == 'stats':
        nodes = [n for tree in doc.trees for n in tree.descendants]
    view = lambda: [[[str(k), str(v)] for k, v in n.misc.items()] for n in nodes]  # noqa: E731
    rec['q'] = view()
    name, cls, options = {'remove': ('removemisc', 'RemoveMisc', {'attrnames': ','.join(o['names'])}), 'concat': ('concatmentionmisc', 'ConcatMentionMisc', {}),
                          'stats': ('miscstats', 'MiscStats', {'maxvalues': o['max']})}[o['b']]
    block = getattr(importlib.import_module('udapi.block.corefud.' + name), cls)(**options)
    text = printed(lambda: block.run(doc))
    rec['out'] = text.split('\n')[:-1] if o['b'] == 'stats' else view()


# -------------------------------------------------------------------------------- cases
def more(rng, s, first=False, rels=DEPRELS):
    n = len(s['em'])
    s['f'] = [rng.choice(FORMS) for _ in range(n)]
    s['u'] = [rng.choice(UPOS if s['em'][p] else UPOS[:-1]) for p in range(n)]
    s['dl'] = ['' if s['em'][p] else 'root' if s['h'][p] == 0 else rng.choice(rels) for p in range(n)]
    s['nd'] = 'n%d' % rng.randrange(100) if first or rng.random() < .2 else ''
    s['np'] = rng.random() < .3
    return s


def random_doc(rng, ids=None, count=None, few=False, **kwargs):
    count = count or rng.choice((1, 1, 2, 3))
    size = kwargs.pop('size', None)
    rels = rng.choice([DEPRELS, ['dep', 'case', 'punct', 'obj']])
    S = [more(rng, corefblocks.sentence(rng, size() if size else None, **kwargs), i == 0, rels) for i in range(count)]
    ids = ids or rng.sample(['e1', 'e2', 'e10', 'b', 'E1', 'x'], rng.choice((1, 2, 2, 3)))
    d = []
    for name in ids:
        ms = []
        for _ in range(rng.choice((1, 1, 2, 3, 6))):
            s = rng.randrange(count)
            if few and rng.random() < .7:
                continue
            n = len(S[s]['em'])
            kind = rng.random()
            if kind < .3:
                w = [rng.randrange(n) + 1]
            elif kind < .6:
                a = rng.randrange(n) + 1
                w = list(range(a, min(n, a + rng.choice((1, 1, 2, 3))) + 1))
            elif kind < .8:
                head = rng.randrange(n) + 1
                w = [p for p in range(1, n + 1) if head in up(S[s], p)]
                if rng.random() < .4:
                    w = sorted(set(w) ^ {rng.randrange(n) + 1}) or w
            else:
                w = sorted(rng.sample(range(1, n + 1), rng.randrange(1, n + 1)))
            if few or not any(m['s'] == s + 1 and m['w'] == w for m in ms) or rng.random() < .3:
                ms.append({'s': s + 1, 'w': w, 'h': rng.choice(w), 'o': [], 'b': []})
        if ms:
            d.append({'id': name, 'ty': '', 'ms': ms, 'sa': []})
    return {'S': S, 'd': d}


def up(s, p):
    seen = []
    while p and p not in seen:
        seen.append(p)
        p = s['h'][p - 1]
    return seen


def big(rng):
    return rng.choice((1, 3, 5, 7, 9, 12)) if rng.random() < .9 else rng.choice((15, 22))


def coin(rng):
    return rng.random() < .5


def one_of_three(rng, names, share):
    return {k: rng.choice((-1, 1)) if rng.random() < share else 0 for k in names}


def few_of(rng, names, share):
    if rng.random() < .6:
        return dict({k: 0 for k in names}, **{rng.choice(names): rng.choice((-1, 1))})
    return one_of_three(rng, names, share)


def pairs_opts(rng):
    return dict(few_of(rng, PAIRS, rng.choice((.1, .1, .25))), form=coin(rng), total=rng.random() < .8, mark=rng.random() < .8, log=coin(rng))


def mentions_opts(rng):
    return dict(few_of(rng, KINDS, rng.choice((0, .12, .12, .3))), max=rng.choice((0, 0, 0, 1, 2, 5)), total=rng.random() < .7, shuffle=rng.random() < .3, should=coin(rng), others=rng.choice((5, 0, 1, 2)))


def entities_opts(rng):
    return {'start': rng.choice(('', '', 'e', 'e1')), 'least': rng.choice((0, 0, 1, 2, 3)), 'ranges': coin(rng), 'mark': coin(rng), 'aggregate': rng.random() < .7}


def stats_opts(rng):
    return {'basics': coin(rng), 'entities': rng.random() < .8, 'mentions': rng.random() < .8, 'details': rng.random() < .7, 'emax': rng.choice((5, 1, 2, 3)), 'mmax': rng.choice((5, 1, 2, 3)),
            'upos': rng.sample(UPOS, rng.choice((1, 3, 6))), 'nosingle': rng.random() < .2, 'nomore': rng.random() < .2, 'style': rng.choice(('human', 'tex'))}


def cases_of(name, quick, opts, mode=None, limit=600, **kwargs):
    def make(tier, seed, stim):
        rng = random.Random('%s%s' % (name, seed))
        out = []
        mine = [x for x in stim if x['m'] == mode]
        for x in rng.sample(mine, min(len(mine), 12000 if tier == 'thorough' else limit)):
            out.append({'S': [x['s']], 'd': x['d'], 'o': opts(rng)})
        for _ in range(quick * (8 if tier == 'thorough' else 1)):
            out.append(dict(random_doc(rng, size=lambda: big(rng), **kwargs), o=opts(rng)))
        return out
    return make


def stats_cases(tier, seed, _stim):
    rng = random.Random('stats%s' % seed)
    out = []
    for _ in range(4000 if tier == 'thorough' else 500):
        out.append({'docs': [random_doc(rng, size=lambda: big(rng)) for _ in range(rng.choice((1, 1, 2, 3)))], 'o': stats_opts(rng)})
    return out


def single(rng, nd, np, has):
    s = more(rng, corefblocks.sentence(rng, rng.choice((1, 2)), empties=.4))
    s['nd'], s['np'] = nd, np
    n = len(s['em'])
    return s, [rng.choice([p for p in range(1, n + 1)])] if has else []


def gaps_cases(tier, seed, stim):
    rng = random.Random('gaps%s' % seed)
    mine = [x['g'] for x in stim if x['m'] == 'gaps']
    out = []
    plans = [[x] for x in rng.sample(mine, min(len(mine), 6000 if tier == 'thorough' else 400))]
    for _ in range(3000 if tier == 'thorough' else 400):
        rare, often, par = rng.choice((.1, .3)), rng.choice((.15, .5)), rng.choice((0, .2, .5))
        plans.append([[{'nd': 'n%d' % i if rng.random() < rare else '', 'np': rng.random() < par, 'has': rng.random() < often} for i in range(rng.choice((1, 4, 8, 15)))]
                      for _ in range(rng.choice((1, 2, 3)))])
    for plan in plans:
        docs = []
        for g in plan:
            pairs = [single(rng, x['nd'] if k or rng.random() < .2 or x['nd'] else 'n0', x['np'], x['has']) for k, x in enumerate(g)]
            ms = [{'s': k, 'w': w, 'h': w[0], 'o': [], 'b': []} for k, (_, w) in enumerate(pairs, 1) if w]
            docs.append({'S': [s for s, _ in pairs], 'd': [{'id': 'e1', 'ty': '', 'ms': ms, 'sa': []}] if ms else []})
        o = {'newdoc': coin(rng), 'file': rng.random() < .7, 'total': rng.random() < .7}
        if o['newdoc']:
            for doc in docs:
                doc['S'][0]['nd'] = doc['S'][0]['nd'] or 'n0'
        out.append({'docs': docs, 'o': o})
    return out


NAMES = ['A', 'B', 'AB', 'MentionMisc', 'MentionMisc_gstype', 'MentionMisc_x', 'Mention', 'MentionMisc_', 'XMentionMisc_y']


def misc_cases(tier, seed, _stim):
    rng = random.Random('misc%s' % seed)
    out = []
    for _ in range(4000 if tier == 'thorough' else 500):
        doc = random_doc(rng, empties=.3)
        m = []
        names = rng.sample(NAMES, rng.choice((2, 4, 6)))
        for s in doc['S']:
            for _w in s['em']:
                q = {}
                for _a in range(rng.choice((0, 1, 2, 3, 5))):
                    q[rng.choice(names) + rng.choice(('', '', '[1]', '[2]', '[12]'))] = rng.choice(('1', '2', 'a,b', 'c,d,', 'x:y', 'v'))
                m.append(sorted([k, v] for k, v in q.items()))
        b = rng.choice(('remove', 'concat', 'stats'))
        out.append({'S': doc['S'], 'm': m, 'o': {'b': b, 'names': rng.sample(NAMES, rng.choice((1, 2, 3))), 'max': rng.choice((10, 1, 2, 3))}})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS PairInv MentionInv GapInv EmitInv\nCONSTANTS K=%d K2=%d G=%d Emit=TRUE\n'
MC = [dict(module='MC_CorefReport', cfg=CFG % (3, 0, 3), thorough_cfg=CFG % (3, 1, 4))]
T = 'Trace_CorefReport'
PARTS = [
    Part('pairs', T, run_pairs, cases_of('pairs', 700, pairs_opts, 'pairs'), mc=MC),
    Part('mentions', T, run_mentions, cases_of('mentions', 900, mentions_opts, 'pairs'), mc=MC),
    Part('entities', T, run_entities, cases_of('entities', 500, entities_opts)),
    Part('stats', T, run_stats, stats_cases),
    Part('gaps', T, run_gaps, gaps_cases, mc=MC),
    Part('misc', T, run_misc, misc_cases),
]
