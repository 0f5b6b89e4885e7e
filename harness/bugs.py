"""Blocks which report suspicious words (specification: Bugs)."""
import contextlib
import io
import random
import re

from selecting import heads
from text import record
from tlv.core import Part

DEPS = ['aux', 'fixed', 'goeswith', 'list', 'flat', 'conj', 'appos', 'cop', 'mark', 'det', 'punct', 'nsubj', 'csubj', 'nsubj:outer', 'nsubj:pass', 'obj', 'case', 'aux:pass', 'cc', 'advmod', 'dep', 'root', 'clf',
        'fixed:x', 'conj:y', 'obj:z']
UPOS = ['AUX', 'PRON', 'DET', 'PUNCT', 'NUM', 'VERB', 'SYM', 'X', 'NOUN']
FEATS = [('PronType', 'Prs'), ('NumType', 'Card'), ('VerbForm', 'Fin'), ('VerbForm', 'Inf'), ('Mood', 'Ind'), ('Case', 'Nom')]


def words(rng, few=True):
    n = rng.choice((0, 1, 2, 3, 4, 5, 6, 8))
    h = heads(rng, n)
    deps = rng.sample(DEPS, rng.choice((2, 3, 5))) if few else DEPS
    if rng.random() < .25:
        deps = ['goeswith', 'goeswith', 'dep', 'goeswith:x']
    if rng.random() < .2:
        deps = ['cop', 'cop:x', 'dep', 'cop']
    upos = rng.sample(UPOS, rng.choice((1, 2, 3, 9)))
    out = []
    for k in range(1, n + 1):
        fe = dict(rng.sample(FEATS, rng.choice((0, 0, 1, 2, 3))))
        out.append({'h': h[k], 'f': rng.choice(('a', 'b', ',', 'a1', '%', 'x.')), 'l': rng.choice(('be', 'be', 'get', 'x', '_')), 'u': rng.choice(upos), 'd': rng.choice(deps), 'mi': '', 'ed': [],
                    'fe': sorted([k, v] for k, v in fe.items()), 'sp': rng.random() < .3,
                    'bug': rng.choice(('', '', '', '', 'old', 'cop-upos', 'old,multi-subj', 'punct-nonproj-gap', 'my-cop-upos', 'aux-chain-2'))})
    return out


def fill(root, w):
    nodes = [root]
    for x in w:
        node = root.create_child(form=x['f'], lemma=x['l'], upos=x['u'], deprel=x['d'])
        for k, v in x['fe']:
            node.feats[k] = v
        if x['sp']:
            node.misc['SpaceAfter'] = 'No'
        if x['bug']:
            node.misc['Bug'] = x['bug']
        nodes.append(node)
    for node, x in zip(nodes[1:], w):
        node.parent = nodes[x['h']]
    return nodes


def columns(doc):
    return [(n.ord, n.form, n.lemma, n.upos, n.xpos, str(n.feats), n.parent.ord, n.deprel, n.raw_deps, sorted((k, v) for k, v in n.misc.items() if k != 'Bug')) for t in doc.trees for n in t.descendants]


# ----------------------------------------------------------------------------------- ud.MarkBugs
@record('marks')
def run_marks(case, rec):
    from udapi.core.document import Document
    from udapi.block.ud.markbugs import MarkBugs
    rec['out'], rec['same'] = [], True
    o = case['o']
    block = MarkBugs(save_stats=o['save'], tests=o['tests'] or None, skip=o['skip'] or None, max_cop_lemmas=o['max'])
    for d in case['docs']:
        doc = Document()
        for t in d:
            root = doc.create_bundle().create_tree(t['lang'] + t['zone']) if t['lang'] else doc.create_bundle().create_tree()
            fill(root, t['w'])
        before = columns(doc)
        block.run(doc)
        lines = doc.meta.get('bugs', '').split('\n')
        nums = [re.fullmatch(r' *(\S+) +(\d+)', line) for line in lines]
        nums = {m.group(1): int(m.group(2)) for m in nums if m}
        total = nums.pop('TOTAL', -1)
        rec['out'].append({'bugs': [[n.misc['Bug'] for n in t.descendants] for t in doc.trees], 'stats': nums, 'total': total})
        rec['same'] = rec['same'] and columns(doc) == before


TESTS = ['', '', '', 'chain', 'cop|det', 'no-', 'child', 'punct-nonproj', 'upos|space', 'multi-subj', 'cop-many']


def marks_cases(tier, seed, stim):
    rng = random.Random('marks%s' % seed)
    out = []

    def options(most=5):
        return {'tests': rng.choice(TESTS), 'skip': rng.choice(TESTS + [''] * 8), 'max': rng.choice((0, 1, 2, 2, 3)), 'save': rng.random() < .8, 'lang': ''}

    def tree(w):
        return {'lang': rng.choice(('', 'en', 'en', 'id', 'hil', 'idx')), 'zone': rng.choice(('', '', '_x')), 'w': w}
    pool = [s['w'] for s in stim]
    for w in rng.sample(pool, min(len(pool), 15000 if tier == 'thorough' else 900)):
        out.append({'docs': [[tree([dict(x, sp=rng.random() < .4) for x in w])]], 'o': dict(options(), tests='', skip='')})
    for _ in range(15000 if tier == 'thorough' else 1500):
        out.append({'docs': [[tree(words(rng)) for _t in range(rng.choice((1, 1, 2, 3)))] for _d in range(rng.choice((1, 1, 1, 2)))], 'o': options()})
    for c in out:
        for d in c['docs']:
            for t in d:
                if not t['lang']:
                    t['zone'] = ''
    return out


# -------------------------------------------------------------------------- util.MarkMwtBugsAtNodes
@record('mwt')
def run_mwt(case, rec):
    from udapi.core.document import Document
    from udapi.block.util.markmwtbugsatnodes import MarkMwtBugsAtNodes
    rec['out'], rec['outT'] = [], []
    doc = Document()
    root = doc.create_bundle().create_tree()
    nodes = [root.create_child(form='w') for _ in case['b']]
    for n, b in zip(nodes, case['b']):
        if b:
            n.misc['Bug'] = b
    mwts = []
    for (a, z), b in zip(case['t'], case['tb']):
        mwts.append(root.create_multiword_token(words=nodes[a - 1:z], form='t'))
        if b:
            mwts[-1].misc['Bug'] = b
    MarkMwtBugsAtNodes().run(doc)
    rec['out'] = [n.misc['Bug'] for n in nodes]
    rec['outT'] = [m.misc['Bug'] for m in mwts]


def mwt_cases(tier, seed, stim):
    rng = random.Random('mwt%s' % seed)
    out = []
    for _ in range(2000 if tier == 'thorough' else 300):
        n = rng.choice((0, 1, 2, 3, 5, 7))
        t, i = [], 1
        while i < n:
            size = rng.choice((1, 2, 2, 3))
            if rng.random() < .6 and i + size - 1 <= n:
                t.append([i, i + size - 1])
                i += size
            else:
                i += 1
        values = ['', '', 'A', 'B', 'A+B', 'AB', 'B+C']
        out.append({'b': [rng.choice(values) for _n in range(n)], 't': t, 'tb': [rng.choice(values) for _t in t]})
    return out


# ------------------------------------------------------------------------------------ util.FindBug
@record('find')
def run_find(case, rec):
    from udapi.core.document import Document
    from udapi.block.util.findbug import FindBug
    rec['out'], rec['same'] = [], True
    doc = Document()
    for bundle in case['b']:
        b = doc.create_bundle()
        for i, t in enumerate(bundle):
            root = b.create_tree('_z%d' % i if len(bundle) > 1 or t['named'] else None) if len(bundle) > 1 or t['named'] else b.create_tree()
            root.create_child(form='x' if t['bad'] else 'y', lemma='t%d' % t['id'], deprel='root')
    before = columns(doc)
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text):
            block = FindBug('util.Eval', first_error_only=case['first'], node='node.lemma = node.lemma + "!"; assert node.form != "x"')
            block.apply_on_document(doc)
            block.process_end()
    finally:
        rec['out'] = [int(line.split('\t')[2][1:]) if re.fullmatch(r't\d+', line.split('\t')[2]) else -1 for line in text.getvalue().split('\n') if '\t' in line]
        rec['same'] = columns(doc) == before


def find_cases(tier, seed, stim):
    rng = random.Random('find%s' % seed)
    out = []
    for _ in range(1000 if tier == 'thorough' else 150):
        k = 0
        b = []
        for _b in range(rng.choice((1, 2, 3, 4))):
            b.append([])
            for _t in range(rng.choice((1, 1, 2))):
                k += 1
                b[-1].append({'id': k, 'bad': rng.random() < .35, 'named': rng.random() < .3})
        out.append({'b': b, 'first': rng.random() < .5})
    return out


# --------------------------------------------------------------------------------- ud.AddPunctType
MARKS = list('()[]{}.,;:!?/-"\'`') + ['...', 'a', '@', '(a', '..'] + list('…¡¿–—“”„‘’‚«»‹›《》「」『』')


@record('type')
def run_type(case, rec):
    from udapi.core.document import Document
    from udapi.block.ud.addpuncttype import AddPunctType
    rec['out'], rec['rest'], rec['restOut'] = [], [], []
    doc = Document()
    root = doc.create_bundle().create_tree()
    for x in case['w']:
        node = root.create_child(form=chr(int(x['f'][2:], 16)) if x['f'].startswith('U+') else x['f'], upos=x['u'])
        for k, v in x['fe']:
            node.feats[k] = v

    def rest():
        return [[ascii(n.form), n.upos, '|'.join('%s=%s' % p for p in n.feats.items() if p[0] not in ('PunctType', 'PunctSide'))] for n in root.descendants]
    rec['rest'] = rest()
    AddPunctType().run(doc)
    rec['restOut'] = rest()
    rec['out'] = [{'t': n.feats['PunctType'], 's': n.feats['PunctSide']} for n in root.descendants]


def type_cases(tier, seed, stim):
    rng = random.Random('type%s' % seed)
    out = []
    for i in range(1000 if tier == 'thorough' else 120):
        marks = MARKS if i < 4 else rng.sample(MARKS, 6)
        out.append({'w': [{'f': f if f.isascii() else 'U+%04X' % ord(f), 'u': 'PUNCT' if rng.random() < .75 else 'SYM',
                           'fe': [[k, rng.choice('AB')] for k in ('PunctType', 'PunctSide', 'Case') if rng.random() < .3]} for f in marks]})
    return out


# -------------------------------------------------------------------------------- ud.MarkFeatsBugs
@record('feats')
def run_feats(case, rec):
    from udapi.core.document import Document
    from udapi.block.ud.markfeatsbugs import MarkFeatsBugs
    rec['out'] = ''
    root = Document().create_bundle().create_tree()
    node = root.create_child(form='w')
    for k, v in case['fe']:
        node.feats[k] = v
    if case['bug']:
        node.misc['Bug'] = case['bug']
    block = MarkFeatsBugs()
    block.check_required_features(node, case['required'])
    block.check_allowed_features(node, {k: v for k, v in case['allowed']})
    rec['out'] = node.misc['Bug']


def feats_cases(tier, seed, stim):
    rng = random.Random('feats%s' % seed)
    names = ['Case', 'Number', 'Gender', 'A']
    out = []
    for _ in range(2000 if tier == 'thorough' else 300):
        out.append({'fe': [[k, rng.choice(('Nom', 'Acc', 'X', 'Acc,Nom'))] for k in names if rng.random() < .5], 'required': [k for k in names if rng.random() < .3],
                    'allowed': [[k, [v for v in ('Nom', 'Acc', 'X', 'Acc,Nom') if rng.random() < .5]] for k in names if rng.random() < .6],
                    'bug': rng.choice(('', '', 'Old', 'FeatCaseMissing', 'Old+FeatANotAllowed'))})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS FixedInv PunctInv WordInv EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
PARTS = [
    Part('marks', 'Trace_Bugs', run_marks, marks_cases, mc=[dict(module='MC_Bugs', cfg=CFG % 3, thorough_cfg=CFG % 4)]),
    Part('mwt', 'Trace_Bugs', run_mwt, mwt_cases),
    Part('find', 'Trace_Bugs', run_find, find_cases),
    Part('type', 'Trace_Bugs', run_type, type_cases),
    Part('feats', 'Trace_Bugs', run_feats, feats_cases),
]
