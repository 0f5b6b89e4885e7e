"""Blocks which repair trees of one language (specifications: LangFixes, Text)."""
import importlib
import random

import text
from contractions import heads, misc
from text import record
from tlv.core import Part

BLOCKS = {'he.neg': ('he.fixneg', 'FixNeg'), 'ro.neg': ('ro.fixneg', 'FixNeg'), 'es.excl': ('es.fixexclamation', 'FixExclamation'), 'es.tener': ('es.fixtenerque', 'FixTenerQue'),
          'ga.to2': ('ga.to2', 'To2'), 'gl.to2': ('gl.to2', 'To2'), 'ru.toest': ('ru.fixtoest', 'FixToEst'), 'bg.dot': ('bg.removedotafterabbr', 'RemoveDotAfterAbbr'),
          'kk.aux': ('kk.fixspuriousaux', 'FixSpuriousAux'), 'ug.aux': ('ug.fixspuriousaux', 'FixSpuriousAux'), 'es.elque': ('es.elque', 'ElQue'), 'ca.elque': ('ca.elque', 'ElQue'),
          'es.feats': ('es.fixverbfeats', 'FixVerbFeats'), 'pt.hyphen': ('pt.addhyphenmwt', 'AddHyphenMwt')}


def block_of(lang, name, **kwargs):
    return getattr(importlib.import_module('udapi.block.ud.' + lang), name)(**kwargs)


@record('fix')
def run_fix(case, rec):
    from udapi.core.document import Document
    rec.update(out=[], tok=[], tx2='')
    document = Document()
    root = document.create_bundle().create_tree()
    words = case['w']
    nodes = [root] + [root.create_child(form=w['f'], lemma=w['l'], upos=w['u'], xpos=w['x'], feats='|'.join(w['fe']), deprel=w['d'], misc='|'.join(w['mi'])) for w in words]
    for node, w in zip(nodes[1:], words):
        node.parent = nodes[w['h']]
        if w['ed']:
            node.deps = [{'parent': nodes[e['h']], 'deprel': e['d']} for e in w['ed']]
    keys = {node: num for num, node in enumerate(nodes)}
    root.text = case['tx'] or None
    block_of(*BLOCKS[case['b']], **({'fix': 1} if 'elque' in case['b'] else {})).run(document)
    for node in root.descendants:
        val = {attr: getattr(node, name) for attr, name in zip('fluxd', ('form', 'lemma', 'upos', 'xpos', 'deprel'))}
        val = {attr: '' if value is None else value for attr, value in val.items()}
        rec['out'].append(dict(val, k=keys.get(node, -1), h=keys.get(node.parent, -1), fe=misc(node.feats), mi=misc(node.misc),
                               ed=[{'h': keys.get(e['parent'], -1), 'd': e['deprel']} for e in node.deps]))
        rec['tok'].append(node.multiword_token.form if node.multiword_token else '')
    rec['tx2'] = root.text if root.text is not None else ''


ANY = ['dep', 'obj', 'nsubj', 'nsubj:pass', 'root', 'obl', 'punct', 'advmod', 'conj', 'mark', 'case', 'cc']
UG = ['بەر', 'بار', 'چىق', 'چىقىش', 'يۈر', 'ئولتۇر', 'باق', 'ئۆت', '_', 'كۆرۈش', 'باشلى', 'يەت', 'قايت', 'چۈش', 'قىل', 'چاپ', 'قورق', 'كەلتۈر', 'كىر', 'بەرم', 'x']
#: forms, lemmas, upos, xpos, deprels, features, MISC
WORDS = {
    'he.neg': (['x'], ['l'], ['ADV', 'VERB'], [''], ['neg', 'neg', 'neg', 'neg:x', 'dep'], ['VerbType=Cop', 'VerbType=Mod', 'X=Y', 'VerbType=Cop'], ['ToDo=neg', 'ToDo=x', 'A=1']),
    'ro.neg': (['ne', 'nu', 'Ne'], ['l'], ['PRON', 'ADJ', 'ADV', 'PRON'], [''], ['neg', 'neg', 'neg:x', 'dep'], ['Case=Acc', 'Polarity=Pos', 'X=Y'], ['A=1']),
    'es.excl': (['¡a', 'b!', '¡c!', '!d', 'e¡', '¡!', '!', 'f', '!!', 'g!!', '¡¡h', '1!', '_!', 'i?!', '¡jo!'], ['l'], ['X', 'NOUN'], [''], ANY, ['X=Y'], ['SpaceAfter=No', 'A=1', 'Mark=x']),
    'es.tener': (['tengo', 'que', 'Que', 'a', 'A', 'x', 'comer', 'va'], ['tener', 'ir', 'tenerse', 'x', 'tener', 'ser'], ['AUX', 'AUX', 'AUX', 'VERB', 'SCONJ'], [''],
                 ['aux', 'aux', 'aux:x', 'aux', 'mark', 'obj', 'obj:x', 'obl', 'obl:arg', 'advmod', 'nsubj', 'nsubj:pass', 'conj', 'cc', 'compound:prt', 'fixed', 'iobj', 'xcomp', 'ccomp', 'punct', 'list', 'flat', 'goeswith', 'reparandum', 'cop'], ['X=Y'], ['A=1']),
    'ga.to2': (['x'], ['ag', 'l'], ['PRON', 'ADP', 'NOUN', 'VERB'], ['Abr', 'Cop', 'Foreign', '', 'Noun'], ['nmod:prep', 'nmod:tmod', 'nmod', 'case', 'nmod:prep:x'],
               ['Case=Com', 'Case=Gen', 'Form=Emph', 'Form=Ecl', 'VerbForm=Inf', 'VerbForm=Vnoun', 'VerbForm=Ger', 'VerbForm=Part', 'PronType=Prs', 'Form=Emph'], ['ToDo=nmod', 'ToDo=neg', 'ToDo=check-nmod', 'A=1']),
    'gl.to2': (['x'], ['ser', 'estar', 'ser', 'l'], ['NOUN', 'PRON', 'ADJ', 'VERB', 'PUNCT', 'ADP', 'ADP', 'PUNCT', 'CONJ', 'PART'], [''],
               ['cop', 'cop', 'case', 'case', 'punct', 'punct', 'obj', 'root', 'cop:x', 'case:x'], ['X=Y'], ['A=1', 'ToDo=x']),
    'ru.toest': (['x'], ['то', 'то', 'быть', 'быть', 'x'], ['SCONJ', 'VERB'], [''], ['mark', 'mark', 'mark:x', 'fixed', 'fixed', 'fixed:x', 'dep'], ['X=Y'], ['A=1']),
    'bg.dot': (['x', 'г.', '.', '.', '..', 'т.н.', '.'], ['l'], ['PUNCT', 'NOUN'], [''], ANY, ['X=Y'], ['A=1']),
    'kk.aux': (['x'], ['баста', 'кет', 'x', 'бастап', 'кетті'], ['AUX', 'AUX', 'VERB'], [''],
               ['aux', 'aux', 'aux:x', 'nsubj', 'nsubj:pass', 'csubj', 'obl', 'obl:x', 'advmod', 'advcl', 'vocative', 'discourse', 'parataxis', 'punct', 'obj', 'mark', 'conj', 'iobj', 'root'], ['X=Y'], ['A=1']),
    'es.elque': (['x'], ['el', 'que', 'cual', 'x'], ['DET', 'PRON', 'ADP', 'VERB'], [''], ['case', 'fixed', 'nsubj', 'csubj', 'csubj:pass', 'ccomp', 'advcl', 'acl', 'acl:x', 'xcomp', 'conj', 'appos', 'root', 'mark', 'cc', 'punct', 'det', 'obl', 'parataxis', 'conj:x'], ['X=Y'], ['A=1']),
    'es.feats': (['comer', 'Ir', 'hablar', 'siendo', 'entiendo', 'Entiendo', 'hablado', 'HABLADA', 'comidos', 'abiertas', 'dicho', 'fecha', 'hechos', 'muerta', 'puestas', 'visto', 'vistos', 'cansadas', 'come', 'habla', 'amores', 'idas', 'Cantad', 'mando'],
                 ['l'], ['VERB', 'AUX', 'VERB', 'NOUN'], [''], ['dep'], ['Gender=Masc', 'Gender=Fem', 'Number=Plur', 'Number=Sing', 'VerbForm=Fin', 'Mood=Ind', 'Tense=Pres', 'Person=1'], ['A=1']),
    'pt.hyphen': (['a', 'B1', '-', '-', '-', 'al', 'Al', 'c', 'é', ',', 'x_y'], ['l'], ['X'], [''], ANY, ['X=Y'], ['A=1', 'ToDo=x']),
}
WORDS['ug.aux'] = (['x'], UG) + WORDS['kk.aux'][2:]
WORDS['ca.elque'] = WORDS['es.elque']


def words_of(rng, b, n):
    h = heads(rng, n)
    if b == 'pt.hyphen' or rng.random() < .3:      # flat trees
        top = rng.randint(1, n)
        h = {k: top if k != top and rng.random() < .7 else h[k] for k in h}
        if cyclic(h):
            h = {k: 0 if k == top else top for k in h}
    forms, lemmas, upos, xpos, deprels, feats, miscs = WORDS[b]
    out = []
    for k in range(1, n + 1):
        fe = {x.split('=')[0]: x for x in rng.sample(feats, rng.choice((0, 1, 1, min(2, len(feats)), min(4, len(feats)))))}
        mi = {x.split('=')[0]: x for x in rng.sample(miscs, rng.choice((0, 0, 1, min(2, len(miscs)))))}
        out.append({'k': k, 'h': h[k], 'f': rng.choice(forms), 'l': rng.choice(lemmas), 'u': rng.choice(upos), 'x': rng.choice(xpos), 'd': rng.choice(deprels),
                    'fe': sorted(fe.values()), 'mi': sorted(mi.values()), 'ed': []})
    if b in ('es.tener', 'kk.aux', 'ug.aux'):
        for w in out:
            if not w['h'] and w['d'].startswith('aux'):
                w['d'] = 'root'
    if b in ('es.tener', 'kk.aux', 'ug.aux', 'gl.to2', 'ru.toest') and n > 2 and rng.random() < .7:
        under(rng, b, out)
        if cyclic({w['k']: w['h'] for w in out}):
            return words_of(rng, b, n)
    if b == 'pt.hyphen' and n > 3 and rng.random() < .7:
        compound(rng, out)
        if cyclic({w['k']: w['h'] for w in out}):
            return words_of(rng, b, n)
    if b == 'pt.hyphen':
        for w in out:
            while w['h'] and out[w['h'] - 1]['f'] == '-':
                w['h'] = out[w['h'] - 1]['h']
    if b == 'es.feats':
        for w in out:
            w['f'] = rng.choice([w['f'], w['f'], w['f'].upper(), w['f'].title()])
    if b == 'bg.dot' and n > 1 and rng.random() < .7:
        out[-1]['f'] = '.'
        out[-2]['f'] = rng.choice(['г.', 'г.', '..', '.', 'x'])
    if 'elque' in b:
        i = rng.randint(0, max(n - 3, 0))
        for at, (l, u) in enumerate((('el', 'DET'), (rng.choice(['que', 'que', 'cual']), 'PRON')), i):
            if at < n:
                out[at].update(l=l, u=u)
        if i and rng.random() < .7:
            out[i - 1]['u'] = 'ADP'
        if i + 2 < n and rng.random() < .8:
            verb = rng.randint(i + 2, n - 1)
            for at in (i + 1, i, i - 1):
                if at >= 0 and rng.random() < .7:
                    out[at]['h'] = verb + 1
            if rng.random() < .3:
                out[i]['h'] = i + 2
            if i > 1 and rng.random() < .4:     # a fixed preposition
                out[i - 1].update(d=rng.choice(['fixed', 'fixed', 'fixed:x']), h=i - 1)
                out[i - 2].update(h=rng.choice([i + 2, verb + 1, verb + 1]), d=rng.choice(WORDS[b][4]), u=rng.choice(['ADP', 'ADV']))
            if rng.random() < .5:
                out[verb]['h'] = rng.choice([at for at in range(n) if at not in (i + 1, i + 2, verb + 1)])
            if cyclic({w['k']: w['h'] for w in out}):
                return words_of(rng, b, n)
    if b in ('es.tener', 'ru.toest', 'es.elque', 'ca.elque') and rng.random() < .6:
        for w in out:
            if rng.random() < .8:
                same = {'h': w['h'], 'd': w['d'] if rng.random() < .7 else w['d'].split(':')[0] + ':e'}
                more = [{'h': k, 'd': 'e'} for k in rng.sample(range(n + 1), rng.choice((0, 0, 1, min(2, n))))]
                if rng.random() < .2:       # a head which the tree does not have
                    w['ed'] = [{'h': rng.randint(0, n), 'd': w['d']}]
                    continue
                if b == 'ru.toest' and rng.random() < .3:
                    more.append({'h': w['h'], 'd': rng.choice(['conj', 'e', 'mark:x'])})
                w['ed'] = ([same] if rng.random() < .85 else []) + [e for e in more if e['h'] != w['h'] or rng.random() < .3]
                w['ed'].sort(key=lambda e: (e['h'], e['d']))
    return out


def under(rng, b, out):
    """A word m with a word i below it which the block is about, and more words below them."""
    i, m = rng.sample(range(len(out)), 2)
    lemma = rng.choice(WORDS[b][1])
    if b == 'es.tener':
        lemma = rng.choice(['tener', 'ir'])
    elif b == 'kk.aux':
        lemma = rng.choice(['баста', 'кет'])
    out[i].update(l=lemma, h=m + 1)
    if b == 'gl.to2':
        if rng.random() < .5:
            out[i]['d'] = 'cop'
            out[m]['l'] = rng.choice(['ser', 'estar'])
        else:
            out[i].update(d='case', u=rng.choice(['ADP', 'CONJ', 'PART'])) if rng.random() < .6 else out[i].update(d='punct', u='PUNCT')
    elif b == 'ru.toest':
        out[i].update(l='то', d=rng.choice(['mark', 'mark', 'mark:x']))
        j = rng.randrange(len(out))
        if j not in (i, m):
            out[j].update(l='быть', h=i + 1, d=rng.choice(['fixed', 'fixed', 'fixed:x', 'dep']))
    else:
        out[i].update(u='AUX', d=rng.choice(['aux', 'aux', 'aux:x']))
    for j, w in enumerate(out):
        if j not in (i, m) and w['l'] != 'быть' and rng.random() < .6:
            w['h'] = rng.choice([m, m, i]) + 1
            w['d'] = rng.choice(WORDS[b][4])
    out[m]['h'] = rng.choice([0] + [j + 1 for j in range(len(out)) if j not in (i, m)])
    for w in out:
        if not w['h'] and w['d'].startswith('aux'):
            w['d'] = 'root'


def compound(rng, out):
    """A compound with hyphens with one head, sometimes with words outside below it."""
    n = len(out)
    size = rng.choice([size for size in (3, 3, 5, 5, 7) if size <= n])
    first = rng.randint(0, n - size)
    places = list(range(first, first + size))
    for at in places:
        out[at]['f'] = '-' if (at - first) % 2 else rng.choice(['a', 'B1', 'c', 'é'])
    inner = [at for at in places if out[at]['f'] != '-']
    head = rng.choice(inner)
    for at in places:
        if at != head:
            out[at]['h'] = head + 1 if at not in inner or rng.random() < .6 else rng.choice(inner) + 1
    outer = [at for at in range(n) if at not in places]
    out[head]['h'] = rng.choice(outer) + 1 if outer and rng.random() < .5 else 0
    for at in outer:
        if at + 1 != out[head]['h'] and rng.random() < .4:
            out[at]['h'] = rng.choice(inner + [head] * 4) + 1


def cyclic(h):
    for k in h:
        x, steps = k, 0
        while x and steps <= len(h):
            x, steps = h[x], steps + 1
        if x:
            return True
    return False


MORE = {'es.tener': 700, 'es.elque': 900, 'ru.toest': 700, 'kk.aux': 500, 'ug.aux': 500, 'gl.to2': 1500, 'pt.hyphen': 700, 'he.neg': 200, 'ro.neg': 200}


def fix_cases(tier, seed, stim):
    rng = random.Random('langfixes%s' % seed)
    thorough = tier == 'thorough'
    out = []
    by = {}
    for s in stim:
        by.setdefault(s['b'], []).append(s)
    for b in sorted(by):
        for s in rng.sample(by[b], min(len(by[b]), 4000 if thorough else 150)):
            out.append({'b': b, 'w': s['w'], 'tx': 'x.'})
    for b in sorted(BLOCKS):
        for _ in range(4000 if thorough else MORE.get(b, 350)):
            out.append({'b': b, 'w': words_of(rng, b, rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 11))), 'tx': rng.choice(['x', 'x', 'x.', 'x..', 'x. .', '', 'a long text ' * 8, 'a long text ' * 8 + 'x..', 'a long text ' * 5 + 'x. .', 'x...', '.', 'x. . x']) if b == 'bg.dot' else rng.choice(['', 'x'])})
    return out


@record('spaces')
def run_spaces(case, rec):
    rec['after'] = []
    doc, keys = text.make(case['ss'])
    for root, xpos, upos in zip(doc.trees, case['xp'], case['up']):
        for node, x, u in zip(root.descendants, xpos, upos):
            node.xpos, node.upos = x, u
    block_of(case['lang'] + '.setspaceafter', 'SetSpaceAfter', **({} if case['fix'] else {'fix_text': 0})).run(doc)
    rec['after'] = [text.plain(v) for v in text.view(doc, case['ss'], keys)]


def space_cases(tier, seed, _stim):
    rng = random.Random('langspaces%s' % seed)
    out = []
    for num in range(8000 if tier == 'thorough' else 1000):
        lang = ('en', 'ro')[num % 2]
        own = ["n't", "'s", "'", "'", '-', '-', '$', '5', 'do', "N't"] if lang == 'en' else ['n-', '-i', '-', '-3,1', '-5', 'o', '--', '-5a', '-.', 'a-b', '-ș', 'într-']
        ss = [text.sentence(rng, forms=own + own + ['a', '.', ',', '"', '(']) for _s in range(rng.choice((1, 2, 3)))]
        for s in ss:
            s['tx'] = rng.choice(['', 'old text'])
        out.append({'lang': lang, 'ss': ss, 'fix': rng.random() < .8, 'xp': [[rng.choice(['``', "''", 'NN']) for _w in s['w']] for s in ss],
                    'up': [[rng.choice(['NUM', 'X']) for _w in s['w']] for s in ss]})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TreeInv KeepInv GoalInv EnhancedInv EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
PARTS = [Part('fix', 'Trace_LangFixes', run_fix, fix_cases, mc=[dict(module='MC_LangFixes', cfg=CFG % 3, thorough_cfg=CFG % 4)]),
         Part('spaces', 'Trace_LangSpaces', run_spaces, space_cases)]
