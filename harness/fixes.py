"""Blocks which repair or transform trees (specification: Fixes)."""
import random

from selecting import heads
from text import record
from tlv.core import Part

FORMS = ['f', 'g', 'a1', '7']
VOC = {
    'proj': (['a', 'b', 'c:x', 'd'], ['X']),
    'deproj': (['a', 'b', 'b:x', 'a:x+b', 'a:+c', 'c', 'd:+a'], ['X']),
    'flatten': (['a', 'root', 'b'], ['X']),
    'chain': (['flat', 'fixed', 'list', 'goeswith', 'flat:name', 'fixed:x', 'flatter', 'dep'], ['X']),
    'right': (['flat', 'appos', 'conj', 'list', 'flat:name', 'fixed', 'dep', 'nsubj'], ['X']),
    'root': (['root', 'root:x', 'dep', 'parataxis', 'punct'], ['X']),
    'leaf': (['case', 'cc', 'conj', 'aux', 'aux:pass', 'mark', 'fixed', 'punct', 'dep', 'goeswith', 'reparandum', 'cc:preconj'], ['X']),
    'subj': (['nsubj', 'csubj', 'nsubj:pass', 'csubj:outer', 'nsubj:outer', 'nsubj:outer2', 'obj', 'subj'], ['X']),
    'name': (['compound', 'compound', 'compound:x', 'flat:name', 'dep'], ['PROPN', 'PROPN', 'PROPN', 'X']),
    'pchild': (['punct', 'punct', 'punct:x', 'dep'], ['PUNCT', 'X']),
    'cop': (['cop', 'cop', 'aux', 'nsubj', 'csubj:x', 'obl', 'nmod', 'advmod', 'ccomp', 'punct', 'amod', 'dep'], ['AUX', 'AUX', 'X', 'VERB']),
    'deps': (['a', 'b:x', 'c'], ['X']),
    'advmod': (['advmod', 'advmod', 'advmod:x', 'det', 'mark', 'case', 'aux', 'dep'], ['ADV', 'ADV', 'NOUN', 'VERB', 'AUX', 'ADP', 'SCONJ', 'CCONJ', 'INTJ', 'ADJ', 'PART', 'X', 'PUNCT', 'NUM']),
}


def block(o):
    from udapi.block.transform import proj, deproj, flatten
    from udapi.block.ud import fixchain, fixrightheaded, fixroot, fixleaf, fixmultisubjects, fixcompoundname, fixpunctchild, fixpseudocop, basic2enhanced, fixadvmodbyupos
    b = o['b']
    few = {'deprels': ','.join(o['D'])} if o['D'] else {}
    if b == 'proj':
        return proj.Proj(lifting_order='shortest' if o['one'] else 'deepest', label=o['label'])
    if b == 'deproj':
        return deproj.Deproj(label=o['label'])
    if b == 'flatten':
        return flatten.Flatten(oneroot=o['one'])
    if b == 'cop':
        return fixpseudocop.FixPseudoCop(lemmas=','.join(o['L']), noncopaux=o['aux'])
    if b == 'chain':
        return fixchain.FixChain(**few)
    if b == 'right':
        return fixrightheaded.FixRightheaded(**few)
    if b == 'leaf':
        return fixleaf.FixLeaf(**few)
    return {'root': fixroot.FixRoot, 'subj': fixmultisubjects.FixMultiSubjects, 'name': fixcompoundname.FixCompoundName, 'pchild': fixpunctchild.FixPunctChild,
            'deps': basic2enhanced.Basic2Enhanced, 'advmod': fixadvmodbyupos.FixAdvmodByUpos}[b]()


DEFAULTS = {'chain': 'fixed,flat,goeswith,list', 'right': 'flat,fixed,appos,goeswith,list', 'leaf': 'aux,cop,case,mark,cc'}


@record('fix')
def run_fix(case, rec):
    from udapi.core.document import Document
    rec['out'] = []
    o = case['o']
    doc = Document()
    root = doc.create_bundle().create_tree()
    nodes = [root]
    for x in case['w']:
        nodes.append(root.create_child(form=x['f'], lemma=x['l'], upos=x['u'], deprel=x['d']))
        if x['mi']:
            nodes[-1].misc['pproj'] = x['mi']
    for node, x in zip(nodes[1:], case['w']):
        node.parent = nodes[x['h']]
        if x['ed']:
            node.deps = [{'parent': nodes[e['h']], 'deprel': e['d']} for e in x['ed']]
    block(o).run(doc)
    rec['o'] = dict(o, D=o['D'] or DEFAULTS.get(o['b'], '').split(','))
    place = {n: i for i, n in enumerate(nodes)}
    rec['out'] = [{'h': place.get(n.parent, -1), 'f': n.form, 'l': n.lemma, 'u': n.upos, 'd': n.deprel, 'mi': n.misc['pproj'],
                   'ed': [{'h': place.get(e['parent'], -1), 'd': e['deprel']} for e in n.deps]} for n in root.descendants]


def options(rng, b):
    o = {'b': b, 'one': rng.random() < .5, 'label': rng.choice(('misc', 'deprel')), 'L': rng.choice((['be'], ['be', 'get'])), 'aux': rng.random() < .4, 'D': []}
    if b in ('chain', 'right', 'leaf') and rng.random() < .6:
        o['D'] = rng.choice({'chain': (['flat'], ['fixed', 'flat'], ['dep', 'flat']), 'right': (['flat', 'conj'], ['conj'], ['appos', 'flat'], ['dep', 'flat']),
                             'leaf': (['case', 'cc'], ['cc'], ['mark', 'case', 'aux'])}[b])
    return o


def sound(w, o):
    """A pseudocopula needs something to be the copula of."""
    return o['b'] != 'cop' or not any(x['h'] == 0 and x['l'] in o['L'] and x['d'].split(':')[0] in ('cop', 'aux') for x in w)


def enhanced(rng, w, often):
    for x in w:
        if rng.random() < often:
            x['ed'] = [{'h': h, 'd': rng.choice(('e', 'e:x'))} for h in sorted(rng.sample(range(len(w) + 1), rng.choice((1, 1, min(2, len(w) + 1)))))]
            if rng.random() < .5:
                x['ed'][0]['h'] = x['h']
                x['ed'] = [e for i, e in enumerate(x['ed']) if i == 0 or e['h'] != x['h']]
                x['ed'].sort(key=lambda e: e['h'])
    return w


def sentence(rng, b):
    d, u = VOC[b]
    n = rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 10))
    if b == 'proj':
        n = rng.choice((4, 5, 6, 7, 8))
    h = heads(rng, n)
    if b in ('leaf', 'chain', 'right', 'pchild') and rng.random() < .4:  # words below one another
        order = rng.sample(range(1, n + 1), n)
        h = {k: rng.choice([0] + order[:i]) if rng.random() < .15 else ([0] + order)[i] for i, k in enumerate(order)}
    some = rng.sample(d, min(len(d), rng.choice((2, 3, 5, 12))))
    if b == 'leaf' and rng.random() < .45:
        some = ['cc', 'cc', 'case', 'conj', rng.choice(('cc', 'mark', 'dep'))]
    w = [{'h': h[k], 'f': rng.choice(FORMS if rng.random() < .3 else 'fgh'), 'l': rng.choice(('be', 'be', 'get', 'x', 'y')), 'u': rng.choice(u), 'd': rng.choice(some), 'mi': '', 'ed': []}
         for k in range(1, n + 1)]
    if b == 'deproj':
        for x in w:
            if rng.random() < .4:
                x['mi'] = rng.choice(('a', 'b', 'c', 'd', 'e'))
    return enhanced(rng, w, rng.choice((0, .3, .7)) if b in ('leaf', 'deps', 'chain') else 0)


def fix_cases(tier, seed, stim):
    rng = random.Random('fix%s' % seed)
    out = []
    by = {}
    for s in stim:
        by.setdefault(s['m'], []).append(s['w'])
    for m in sorted(by):
        for w in rng.sample(by[m], min(len(by[m]), 6000 if tier == 'thorough' else 350)):
            kinds = {'proj': ['proj', 'proj'], 'deproj': ['deproj'], 'root': ['root', 'flatten'], 'leaf': ['leaf', 'deps']}.get(m, [m])
            for b in kinds:
                o = options(rng, b)
                if sound(w, o):
                    out.append({'w': enhanced(rng, [dict(x) for x in w], .5) if m == 'leaf' else w, 'o': o})
    for b in sorted(VOC):
        for _ in range(4000 if tier == 'thorough' else 350):
            w, o = sentence(rng, b), options(rng, b)
            if sound(w, o):
                out.append({'w': w, 'o': o})
    return out


# ----------------------------------------------------------------------------------- ud.FixPunct
# Brackets of the specification stand for any pair of marks
STYLES = [{}, {'[': '«', ']': '»', '{': '“', '}': '”'}, {'(': '„', ')': '“', '[': '‹', ']': '›'}, {'(': '《', ')': '》', '[': '「', ']': '」', '{': '『', '}': '』'}]


def fill(doc, w, style):
    root = doc.create_bundle().create_tree()
    nodes = [root]
    for x in w:
        nodes.append(root.create_child(form=style.get(x['f'], x['f']), lemma=x['l'], upos=x['u'], deprel=x['d']))
    for node, x in zip(nodes[1:], w):
        node.parent = nodes[x['h']]
        if x['ed']:
            node.deps = [{'parent': nodes[e['h']], 'deprel': e['d']} for e in x['ed']]
    return nodes


@record('punct')
def run_punct(case, rec):
    from udapi.core.document import Document
    from udapi.block.ud.fixpunct import FixPunct
    rec['out'] = []
    doc = Document()
    trees = [fill(doc, w, STYLES[case['style']]) for w in [case['w']] + case['before']]
    b = FixPunct(check_paired_punct_upos=case['o']['upos'], copy_to_enhanced=case['o']['enh'])
    for nodes in trees[1:] + trees[:1]:
        b.process_tree(nodes[0])
    place = {n: i for i, n in enumerate(trees[0])}
    back = {v: k for k, v in STYLES[case['style']].items()}
    rec['out'] = [{'h': place.get(n.parent, -1), 'f': back.get(n.form, n.form), 'l': n.lemma, 'u': n.upos, 'd': n.deprel, 'mi': '',
                   'ed': [{'h': place.get(e['parent'], -1), 'd': e['deprel']} for e in n.deps]} for n in trees[0][0].descendants]


def brackets(rng, n, forms):
    """Forms with balanced pairs among them."""
    f = [rng.choice('aab') if rng.random() < .6 else rng.choice(forms) for _ in range(n)]
    if n > 2 and rng.random() < .7:
        i, j = sorted(rng.sample(range(n), 2))
        f[i], f[j] = rng.choice(('()', '()', '[]', '{}', '""', "''"))
    if n > 5 and rng.random() < .25:
        some = sorted(rng.sample(range(n), 6))
        for k, c in zip(some, rng.choice(('((()))', '((()))', '(()())', '(())()', '[[[]]]', '{{}{}}', '([()])'))):
            f[k] = c
    return f


def projective(rng, n, sure):
    """Heads of a projective tree in which only the words sure have children."""
    h = {}

    def part(words, top):
        heads = [k for k in words if k in sure]
        if not heads:
            for k in words:
                h[k] = top
            return
        k = rng.choice(heads)
        h[k] = top
        for side in (words[:words.index(k)], words[words.index(k) + 1:]):
            while side:
                cut = rng.randint(1, len(side))
                part(side[:cut], k)
                side = side[cut:]
    part(list(range(1, n + 1)), 0)
    return h


def punct_sentence(rng):
    n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 10))
    f = brackets(rng, n, ',,..-?()"()[]\'"')
    usual = rng.random() < .6
    tag = [x not in 'ab' and (usual or rng.random() < .8) for x in f]
    sure = {k for k in range(1, n + 1) if not tag[k - 1]}
    h = projective(rng, n, sure) if usual and sure else heads(rng, n)
    if usual and sum(1 for k in h.values() if k == 0) > 1:
        h = heads(rng, n)
    return [{'h': h[k], 'f': f[k - 1], 'l': 'l', 'u': 'PUNCT' if tag[k - 1] else rng.choice('XY'), 'd': 'root' if h[k] == 0 and (usual or rng.random() < .6) else
             rng.choice(('punct', 'punct', 'dep:x')) if tag[k - 1] else rng.choice(('dep', 'obj', 'nsubj:pass')) if usual or rng.random() < .9 else rng.choice(('root', 'root:x')),
             'mi': '', 'ed': [{'h': 0, 'd': 'e'}] if rng.random() < .2 else []} for k in range(1, n + 1)]


def punct_cases(tier, seed, stim):
    rng = random.Random('punct%s' % seed)
    thorough = tier == 'thorough'
    out = []
    for m in ('any', 'usual'):
        some = [s['w'] for s in stim if s['m'] == m]
        for w in rng.sample(some, min(len(some), 15000 if thorough else 1200)):
            out.append({'w': w, 'before': [], 'style': 0, 'o': {'upos': rng.random() < .4, 'enh': rng.random() < .2}})
    for _ in range(20000 if thorough else 3000):
        out.append({'w': punct_sentence(rng), 'before': [punct_sentence(rng)] if rng.random() < .3 else [], 'style': rng.randrange(len(STYLES)),
                    'o': {'upos': rng.random() < .3, 'enh': rng.random() < .3}})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS GoalInv RightInv NothingInv FlatInv ProjInv EmitInv\nCONSTANTS N=%d P=%d Emit=TRUE\n'
MC = [dict(module='MC_Fixes', cfg=CFG % (3, 5), thorough_cfg=CFG % (4, 6))]
PCFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ReachInv EmitInv\nCONSTANTS N=%d P=%d Emit=TRUE\n'
MC_PUNCT = [dict(module='MC_Punct', cfg=PCFG % (3, 4), thorough_cfg=PCFG % (4, 5))]
PARTS = [
    Part('fix', 'Trace_Fixes', run_fix, fix_cases, mc=MC),
    Part('punct', 'Trace_Punct', run_punct, punct_cases, mc=MC_PUNCT),
]
