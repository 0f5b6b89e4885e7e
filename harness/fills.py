"""Blocks which fill in what is missing (specification: Fill)."""
import contextlib
import io
import os
import random
import tempfile

from text import record
from tlv.core import Part

SCRATCH = os.environ.get('TLV_SCRATCH')


def tree_of(doc, words):
    root = doc.create_bundle().create_tree()
    nodes = [root] + [root.create_child(form=w['f'], lemma=w.get('le', 'l'), upos=w['u'] or None, xpos=w.get('x', '_'), deprel=w.get('dl', 'dep')) for w in words]
    for node, w in zip(nodes[1:], words):
        node.parent = nodes[w['h']]
    return root, nodes


def file_with(text):
    handle, name = tempfile.mkstemp(dir=SCRATCH)
    os.close(handle)
    with open(name, 'w', encoding='utf-8', newline='') as out:
        out.write(text)
    return name


# -------------------------------------------------------------------------------- goeswith
def words_view(root):
    return [{'f': n.form, 'le': n.lemma if n.lemma is not None else '_', 'u': n.upos, 'x': n.xpos, 'h': n.parent.ord, 'dl': n.deprel} for n in root.descendants]


def tokens_view(root):
    tokens = root.token_descendants
    return [{'f': t.form, 'sp': t.misc['SpaceAfter'] != 'No' or t is tokens[-1], 'n': len(t.words) if hasattr(t, 'words') else 1} for t in tokens]


@record('goeswith')
def run_goeswith(case, rec):
    from udapi.block.ud.goeswithfromtext import GoeswithFromText
    from udapi.core.document import Document
    rec.update({'w2': [], 'tk2': [], 'computed': ''})
    doc = Document()
    root, nodes = tree_of(doc, case['w'])
    k = 1
    for t in case['tk']:
        token = nodes[k] if t['n'] == 1 else root.create_multiword_token(words=nodes[k:k + t['n']], form=t['f'])
        if not t['sp']:
            token.misc['SpaceAfter'] = 'No'
        k += t['n']
    root.text = case['t'] if case['has'] else None
    rec['w'], rec['tk'] = words_view(root), tokens_view(root)
    GoeswithFromText(keep_lemma=case['keep']).run(doc)
    rec['w2'], rec['tk2'] = words_view(root), tokens_view(root)
    rec['computed'] = root.compute_text()


def goeswith_cases(tier, seed, stim):
    rng = random.Random('goeswith%s' % seed)
    out = []
    mine = [x for x in stim if x['m'] == 'text']
    for x in rng.sample(mine, min(len(mine), 6000 if tier == 'thorough' else 500)):
        w = [{'f': t['f'], 'le': rng.choice('lm'), 'u': 'X', 'x': '_', 'h': 0, 'dl': 'dep'} for t in x['tk']]
        heads(rng, w)
        out.append({'w': w, 'tk': x['tk'], 't': x['t'], 'has': True, 'keep': rng.random() < .5})
    for _ in range(5000 if tier == 'thorough' else 700):
        tk, w, t = [], [], ''
        rate = rng.choice((.1, .3, .6))
        for _t in range(rng.choice((1, 2, 4, 7, 12))):
            f = rng.choice(['a', 'ab', 'Aba', 'Nevertheless', ',', '.', 'č', 'žáBa', 'abab', 'can', 'not'])
            n = 1 if rng.random() < .85 else 2
            tk.append({'f': f, 'sp': rng.random() < .6, 'n': n})
            for c, letter in enumerate(f):
                t += letter + (' ' * rng.choice((1, 1, 1, 2)) if (c == len(f) - 1 or n == 1) and rng.random() < (.6 if c == len(f) - 1 else rate) else '')
            w += [{'f': f if n == 1 else rng.choice(['x', 'ab']), 'le': rng.choice(['L', 'l', '_']), 'u': rng.choice(['X', 'NOUN', 'PUNCT']), 'x': rng.choice(['_', 'NN']), 'h': 0,
                   'dl': rng.choice(['dep', 'punct', 'goeswith'])} for _n in range(n)]
        heads(rng, w)
        damage = rng.random()
        if damage < .05:
            t += '!'
        elif damage < .1:
            t = t[1:]
        elif damage < .15:
            t = ''.join(x['f'] + (' ' if x['sp'] else '') for x in tk).strip()
        out.append({'w': w, 'tk': tk, 't': t, 'has': rng.random() < .97, 'keep': rng.random() < .5})
    return out


def heads(rng, w):
    order = list(range(1, len(w) + 1))
    rng.shuffle(order)
    for i, p in enumerate(order):
        w[p - 1]['h'] = rng.choice(order[:i]) if i else 0


# -------------------------------------------------------------------------------- translations
COMMENTS = [' text_en = old', 'text_en=old', ' text_en_x = a', ' my text_en = b', ' c', ' source = x', ' text_cs = text_en = b', ' text_en  = older', '']


@record('translate')
def run_translate(case, rec):
    from udapi.block.ud.settranslation import SetTranslation
    from udapi.core.document import Document
    rec.update({'c2': [], 'blank': 0})
    doc = Document()
    doc.from_conllu_string('\n'.join(''.join('#%s\n' % c for c in cs) + '1\ta\tb\tX\t_\t_\t0\troot\t_\t_\n' for cs in case['c']) + '\n')
    name = file_with(''.join(line + '\n' for line in case['lines'])[:None if case['end'] else -1])
    try:
        SetTranslation(file=name, overwrite=case['over']).run(doc)
    finally:
        os.remove(name)
    rec['blank'] = sum('\n\n' in (tree.comment or '') or (tree.comment or '').startswith('\n') for tree in doc.trees)
    for tree in doc.trees:
        tree.add_comment('later')
    parts = doc.to_conllu_string().split('\n\n')[:-1]
    rec['c2'] = [[line[1:] for line in part.split('\n') if line.startswith('#') and not line.startswith('# sent_id') and not line.startswith('# text =')][:-1] + ([] if part.split('\n1\t')[0].endswith('\n# later') else ['no new line']) for part in parts]
    del rec['end']


def translate_cases(tier, seed, _stim):
    rng = random.Random('translate%s' % seed)
    out = []
    for _ in range(1500 if tier == 'thorough' else 250):
        n = rng.choice((1, 2, 3, 5))
        c = [[x for x in rng.sample(COMMENTS, rng.choice((0, 1, 2, 3))) if x] for _ in range(n)]
        lines = [rng.choice(['A b.', 'Č', 'x = y', 'text_en = z', 'a  b', '']) for _ in range(max(1, n + rng.choice((-1, 0, 0, 1))))]
        if lines[-1] == '':
            lines[-1] = 'end'
        lines = [x or 'none' for x in lines]
        out.append({'c': c, 'lines': lines, 'over': rng.random() < .5, 'end': rng.random() < .7})
    return out


# -------------------------------------------------------------------------------- lemmas
FEATS = {'Degree': ['', 'Pos', 'Cmp'], 'Polarity': ['', 'Pos', 'Neg'], 'VerbForm': ['', 'Inf', 'Fin'], 'Number': ['', 'Sing', 'Plur'], 'Case': ['', 'Nom', 'Gen'], 'Gender': ['', 'Masc', 'Fem', 'Masc,Neut'],
         'Typo': ['', 'Yes', 'No']}
UPOS = 'PUNCT SYM ADP CCONJ SCONJ PART INTJ X NOUN PROPN ADJ PRON DET NUM VERB AUX ADV'.split()


@record('lemma')
def run_lemma(case, rec):
    from udapi.block.ud.lemmatize import Lemmatize
    from udapi.core.document import Document
    rec['le2'] = []
    doc = Document()
    doc.from_conllu_string('\n'.join('\t'.join([str(i), w['f'], w['le'], w['u'] or '_', '_', '|'.join('%s=%s' % (k, v) for k, v in sorted(w['ft'].items()) if v) or '_', str(i - 1), 'dep' if i > 1 else 'root', '_', '_'])
                                     for i, w in enumerate(case['w'], 1)) + '\n\n')
    if case['none']:
        for n in doc.nodes:
            n.lemma = '' if n.lemma == '_' else n.lemma
    Lemmatize().run(doc)
    rec['le2'] = [n.lemma or '_' for n in doc.nodes]


def lemma_cases(tier, seed, _stim):
    rng = random.Random('lemma%s' % seed)
    out = []
    for _ in range(3000 if tier == 'thorough' else 400):
        w = []
        for _w in range(rng.choice((1, 3, 8, 12))):
            ft = {k: rng.choice(v) if rng.random() < .3 else '' for k, v in FEATS.items()}
            u = rng.choice(UPOS + ['', 'VERB', 'ADV', 'ADV', 'NUM'])
            if rng.random() < .5:                           # nearly the features of a base form
                base = {'Degree': 'Pos', 'Polarity': 'Pos', 'VerbForm': 'Inf', 'Number': 'Sing', 'Case': 'Nom', 'Gender': 'Masc'}
                ft = {k: base[k] if k in base and rng.random() < .6 else '' for k in FEATS}
                if rng.random() < .6:
                    k = rng.choice(['Degree', 'Polarity', rng.choice(list(FEATS))])
                    ft[k] = rng.choice(FEATS[k])
            if u == 'VERB' and rng.random() < .6:
                ft['VerbForm'] = 'Inf'
            if u == 'ADJ':
                ft['Degree'] = ft['Polarity'] = ''
            w.append({'f': rng.choice(['Ab', 'b', 'CD', 'č', '.', '_', 'Abx']), 'le': rng.choice(['_', '_', '_', 'x']), 'u': u, 'ft': ft})
        out.append({'w': w, 'none': rng.random() < .3})
    return out


# -------------------------------------------------------------------------------- multiword expressions
def mwe_text(q):
    return ';'.join(x['k'] + (':' + x['t'] if x['t'] else '') for x in q)


def mwe_parse(text):
    out = []
    for x in text.split(';') if text else []:
        k, _, t = x.partition(':')
        out.append({'k': k, 't': t if t or ':' not in x else ':'})
    return out


@record('mwe')
def run_mwe(case, rec):
    from udapi.block.mwe.normalize import Normalize
    from udapi.block.mwe.tosubdeprels import ToSubDeprels
    from udapi.core.document import Document
    rec.update({'a2': [], 'dl2': []})
    doc = Document()
    root, nodes = tree_of(doc, [{'f': 'w', 'u': 'X', 'h': h, 'dl': d} for h, d in zip(case['h'], case['dl'])])
    for node, q in zip(nodes[1:], case['a']):
        if q:
            node.misc['Mwe'] = mwe_text(q)
    (Normalize if case['o'] == 'types' else ToSubDeprels)().run(doc)
    rec['a2'] = [mwe_parse(n.misc['Mwe']) for n in root.descendants]
    rec['dl2'] = [n.deprel for n in root.descendants]


def mwe_cases(tier, seed, stim):
    rng = random.Random('mwe%s' % seed)
    plans = [x['a'] for x in stim if x['m'] == 'mwe']
    plans = rng.sample(plans, min(len(plans), 3000 if tier == 'thorough' else 300))
    for _ in range(3000 if tier == 'thorough' else 400):
        numbers = rng.sample(['1', '2', '3', '10', '11'], rng.choice((1, 2, 3)))
        plans.append([[{'k': k, 't': rng.choice(['', '', 'VID', 'LVC.cause', 'IRV', 'a.b.C'])} for k in rng.sample(numbers, rng.choice((0, 0, 1, 1, min(2, len(numbers)))))]
                      for _w in range(rng.choice((1, 3, 6, 12)))])
    out = []
    for a in plans:
        w = [{'h': 0} for _ in a]
        heads(rng, w)
        out.append({'a': a, 'h': [x['h'] for x in w], 'dl': [rng.choice(['dep', 'obj', 'nsubj:pass']) for _ in a], 'o': rng.choice(['types', 'subtypes'])})
    return out


# -------------------------------------------------------------------------------- fixed expressions
@record('fixed')
def run_fixed(case, rec):
    from udapi.block.ud.printfixed import PrintFixed
    from udapi.core.document import Document
    rec['out'] = []
    doc = Document()
    for words in case['ws']:
        tree_of(doc, words)
    name = file_with(''.join(e + '\n' for e in case['known'])) if case['known'] else None
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            PrintFixed(only_forms=case['forms'], known_expressions=name).run(doc)
    finally:
        if name:
            os.remove(name)
    rec['out'] = out.getvalue().split('\n')[:-1]


def fixed_cases(tier, seed, _stim):
    rng = random.Random('fixed%s' % seed)
    out = []
    for _ in range(4000 if tier == 'thorough' else 600):
        ws = []
        for _s in range(rng.choice((1, 2))):
            w = [{'f': rng.choice(['a', 'B', 'c', 'A']), 'u': rng.choice(['ADP', 'DET', 'X']), 'h': 0, 'dl': rng.choice(['dep', 'case', 'obl:x'])} for _ in range(rng.choice((1, 3, 6, 11)))]
            heads(rng, w)
            for p, x in enumerate(w, 1):
                if x['h'] and x['h'] < p and rng.random() < .4:
                    x['dl'] = rng.choice(['fixed', 'fixed', 'fixed:x'])
                elif x['h'] == 0:
                    x['dl'] = 'root'
            ws.append(w)
        known = sorted({' '.join(rng.choice('abc') for _ in range(rng.choice((2, 2, 3, 4)))) for _ in range(rng.choice((0, 1, 3)))})
        rng.shuffle(known)
        out.append({'ws': ws, 'known': known, 'forms': rng.random() < .5})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TextInv MweInv EmitInv\nCONSTANTS K=%d Emit=TRUE\n'
MC = [dict(module='MC_Fill', cfg=CFG % 2, thorough_cfg=CFG % 3)]
T = 'Trace_Fill'
PARTS = [Part('goeswith', T, run_goeswith, goeswith_cases, mc=MC), Part('translate', T, run_translate, translate_cases), Part('lemma', T, run_lemma, lemma_cases),
         Part('mwe', T, run_mwe, mwe_cases, mc=MC), Part('fixed', T, run_fixed, fixed_cases)]
