"""Language-specific AddMwt blocks (specification: Contractions)."""
import importlib
import random

from text import record
from tlv.core import Part

LANGS = ['cs', 'ca', 'de', 'el', 'es', 'fr', 'la', 'pt']
FORMS = {
    'cs': ['abych', 'kdybych', 'abys', 'kdybys', 'aby', 'kdyby', 'abychom', 'kdybychom', 'abychme', 'kdybychme', 'abyste', 'kdybyste', 'abyšta', 'kdybyšta',
           'nač', 'oč', 'zač', 'proč', 'abyk'],
    'ca': ['al', 'als', 'del', 'dels', 'pel', 'pels', 'el'],
    'de': ['am', 'ans', 'aufs', 'beim', 'durchs', 'fürs', 'hinterm', 'hinters', 'im', 'ins', 'übers', 'ums', 'unterm', 'unters', 'vom', 'vorm', 'vors', 'zum', 'zur', 'an'],
    'el': ['στη', 'στην', 'στα', 'στους', 'στις', 'στον', 'στο', 'το'],
    'es': ['al', 'del', 'al', 'del', 'el'],
    'fr': ['au', 'aux', 'des', 'du', 'du', 'au', 'auquel', 'auxquels', 'auxquelles', 'desquels', 'desquelles', 'duquel', 'de'],
    'la': ['mecum', 'tecum', 'nobiscum', 'vobiscum', 'uobiscum', 'secum', 'nonne', 'id.', 'A.D.', '...', '.', '..'],
    'pt': ['à', 'às', 'ao', 'aos', 'da', 'das', 'dessa', 'dessas', 'desse', 'desses', 'desta', 'destas', 'deste', 'destes', 'disso', 'disto', 'do', 'dos', 'dum', 'duma',
           'dumas', 'duns', 'na', 'nas', 'nesses', 'nesta', 'neste', 'nisso', 'no', 'nos', 'num', 'numa', 'numas', 'nuns', 'pela', 'pelas', 'pelos', 'pelo',
           'dela', 'dele', 'deles', 'delas', 'no', 'nos', 'no', 'nos', 'no', 'nos', 'nos', 'o'],
}
VERBS = {'es': ['verlo', 'darle', 'irse', 'verme', 'verte', 'verla', 'verlos', 'darles', 'pese', 'ver', 'hables'],
         'pt': ['veja-se', 'vê-lo', 'vê-los', 'tem-o', 'ver', 'fá-las']}
HINTS = ['že jsi', 'kde i', 'jáť ť', 'já ť', 'já tě', 'já ti', 'xe y', 'na něj', 'x', 'a b c', 'kdes jsi']
HINTED = ['naň', 'oň', 'zaň', 'proňž', 'naňž', 'přědeň', 'skrzeň', 'skirzěn', 'přěden', 'jáť', 'žes', 'játi', 'jáť', 'naněj', 'zan', 'kdei']
FEATS = ['', '', 'Gender=Masc|Number=Sing', 'VerbForm=Inf', 'Gender=Neut', 'Animacy=Inan|Gender=Masc', 'VerbForm=Fin', 'Number=Plur|VerbForm=Part', 'Animacy=Anim', 'Gender=Fem', 'Animacy=Inan|Gender=Neut', 'Animacy=Inan']
DEPRELS = ['case', 'case', 'root', 'conj', 'obl', 'fixed', 'case:x', 'det', 'mark', 'conj:x', 'nmod', 'fixed:x', 'reparandum', 'cc', 'punct']
UPOS = ['ADP', 'NOUN', 'PROPN', 'VERB', 'AUX', 'ADV', 'PRON', 'DET']
MISC = ['Entity=(e1)', 'SpaceAfter=No', 'X=1', 'Gloss=a']


def misc(text):
    return ['%s=%s' % item for item in text.items()]


def run_contractions(case, rec):
    from udapi.core.document import Document
    rec['after'] = {'w': [], 'tk': []}
    rec['text'] = rec['textafter'] = ''
    block = importlib.import_module('udapi.block.ud.%s.addmwt' % case['lang']).AddMwt
    document = Document()
    root = document.create_bundle().create_tree()
    words = case['s']['w']
    nodes = [root.create_child(form=w['f'], lemma=w['l'], upos=w['u'], xpos=w['x'], feats=w['fe'], deprel=w['d'], misc='|'.join(w['mi'])) for w in words]
    for node, w in zip(nodes, words):
        if w['h']:
            node.parent = nodes[w['h'] - 1]
    for num, token in enumerate(case['s']['tk'], 1):
        root.create_multiword_token([n for n, w in zip(nodes, words) if w['t'] == num], token['f'], '|'.join(token['mi']))
    keys = {node: num for num, node in enumerate(nodes, 1)}
    rec['text'] = root.compute_text()
    (block(verbpron=True) if case['vp'] else block()).run(document)
    rec['textafter'] = root.compute_text()
    numbers, tokens, out = {}, [], []
    for node in root.descendants:
        mwt = node.multiword_token
        if mwt is not None and mwt not in numbers:
            numbers[mwt] = len(numbers) + 1
            tokens.append({'f': mwt.form, 'mi': misc(mwt.misc)})
        val = {attr: getattr(node, name) for attr, name in zip('fluxd', ('form', 'lemma', 'upos', 'xpos', 'deprel'))}
        val = {attr: '' if value in (None, '_') else value for attr, value in val.items()}
        out.append(dict(val, k=keys.get(node, -1), h=0 if node.parent is root else keys.get(node.parent, -1), fe=str(node.feats) if node.feats else '',
                        mi=misc(node.misc), t=numbers[mwt] if mwt is not None else 0))
    rec['after'] = {'w': out, 'tk': tokens}


run = record('divide')(run_contractions)


def heads(rng, n):
    order = list(range(1, n + 1))
    rng.shuffle(order)
    h = {}
    near = rng.random() < .6
    for i, k in enumerate(order):
        some = order[:i]
        if near and some:
            some = sorted(some, key=lambda x, k=k: abs(x - k))[:2]
        h[k] = rng.choice(some) if some and rng.random() < .93 else 0
    return h


def cased(rng, form):
    if rng.random() < .75 or form[0] in 'στο':
        return form
    return form.upper() if rng.random() < .4 else form[0].upper() + form[1:]


def word(rng, lang, h, k):
    roll = rng.random()
    w = {'k': k, 'h': h, 'f': rng.choice(['x', 'ya', 'Zu', ',']), 'l': 'l%d' % k, 'u': rng.choice(UPOS), 'x': 'T', 'd': rng.choice(DEPRELS), 'fe': rng.choice(FEATS),
         'mi': sorted(rng.sample(MISC, rng.choice((0, 0, 1, 2)))), 't': 0}
    if roll < .45:
        w['f'] = cased(rng, rng.choice(FORMS[lang]))
        if rng.random() < .7:
            w['u'] = 'ADP'
        if w['f'].lower() in ('no', 'nos'):
            w['u'] = rng.choice(['PRON', 'ADP', 'PRON'])
    elif lang in VERBS and roll < .65:
        w['f'] = cased(rng, rng.choice(VERBS[lang]))
        w['u'] = rng.choice(['VERB', 'VERB', 'AUX', 'NOUN'])
    elif lang == 'cs' and roll < .85:
        w['f'] = cased(rng, rng.choice(HINTED))
        if rng.random() < .85:
            hint = rng.choice(HINTS)
            if w['f'][-1] == 'ť' and rng.random() < .6:
                hint = w['f'][:-1] + ' ť'
            elif rng.random() < .4:
                hint = 'na něj'
            w['mi'] = sorted(w['mi'] + ['AddMwt=' + hint])
    elif roll < .7:
        w['d'] = rng.choice(['fixed', 'punct', 'fixed:x', 'det'])
    elif roll < .85:
        w['u'] = rng.choice(['NOUN', 'NOUN', 'PROPN', 'VERB'])
    return w


def tree(words):
    for w in words:
        h, steps = w['h'], 0
        while h and steps <= len(words):
            h, steps = words[h - 1]['h'], steps + 1
        if h:
            return False
    return True


def sentence(rng, lang):
    n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 11))
    h = heads(rng, n)
    words = [word(rng, lang, h[k], k) for k in range(1, n + 1)]
    if lang in ('es', 'fr') and n > 3 and rng.random() < .4:
        first = rng.randint(1, n - 2)
        w = words[first]
        w.update(f=rng.choice(FORMS[lang]), u='ADP', d=rng.choice(['fixed', 'case']), h=rng.randint(1, first))
        noun = rng.randint(first + 1, n - 1)
        for between in words[first + 1:noun]:
            between.update(h=noun + 1, f='x', u=rng.choice(['PRON', 'ADJ', 'ADV', 'NUM', 'DET', 'SYM', 'X']), d=rng.choice(['det', 'advmod']))
        words[noun].update(h=rng.randint(0, first), u=rng.choice(['NOUN', 'PROPN', 'PRON', 'ADJ', 'NOUN']), f='n')
        if not tree(words):
            return sentence(rng, lang)
    if lang == 'pt' and n > 2 and rng.random() < .4:
        first = rng.randint(0, n - 3)
        words[first].update(f=rng.choice(FORMS['pt']), d=rng.choice(['root', 'obl', 'conj:x', 'case', 'case:x']))
        for other in words[first + 1:first + 3]:
            other.update(h=first + 1, f='x', d=rng.choice(['punct', 'fixed', 'fixed:x', 'det', 'nmod']))
        if not tree(words):
            return sentence(rng, lang)
    tokens = []
    i = 0
    while i + 1 < n:
        if rng.random() < .06:
            size = rng.choice((2, 2, 3))
            tokens.append({'f': 'token', 'mi': sorted(rng.sample(['SpaceAfter=No', 'X=2', 'Y=3'], rng.choice((0, 1, 2))))})
            for w in words[i:i + size]:
                w['t'] = len(tokens)
                w['mi'] = [x for x in w['mi'] if x[0] != 'S']
            i += size
        else:
            i += 1
    return {'w': words, 'tk': tokens}


def cases(tier, seed, stim):
    rng = random.Random('contractions%s' % seed)
    thorough = tier == 'thorough'
    out = [{'lang': s['lang'], 's': {'w': s['w'], 'tk': []}, 'vp': s['lang'] == 'es'} for s in rng.sample(stim, min(len(stim), 20000 if thorough else 1200))]
    for lang in LANGS:
        for _ in range(4000 if thorough else 300 if lang in ('de', 'el', 'ca', 'la') else 700):
            out.append({'lang': lang, 's': sentence(rng, lang), 'vp': lang == 'es' and rng.random() < .7})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS KeepInv TreeInv TokenInv OnceInv EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
PARTS = [Part('divide', 'Trace_Contractions', run, cases, mc=[dict(module='MC_Contractions', cfg=CFG % 3, thorough_cfg=CFG % 4)])]
