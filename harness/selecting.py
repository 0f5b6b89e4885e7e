"""Blocks which select, mark, count and compare words (specification: Select)."""
import contextlib
import io
import os
import random
import re
import tempfile

from text import record
from tlv.core import Part

SCRATCH = os.environ.get('TLV_SCRATCH')
LOG = []
UPOS = ['NOUN', 'VERB', 'X', 'PUNCT']
NODE = {'upos': 'node.upos == "%s"', 'starts': 're.match("%s", node.upos)', 'marked': 'node.misc["Mark"]', 'leaf': 'not node.children', 'top': 'node.parent.is_root()',
        'kids': 'len(node.children) > 1', 'left': 'node.precedes(node.parent)', 'nonproj': 'node.is_nonprojective()', 'ord': 'node.ord == %s'}
TREE = {'big': 'len(tree.descendants) > %s', 'flat': 'len(root.children) == len(root.descendants)', 'all': 'True', 'some': 'root.children'}
NONE = {'t': '', 'v': ''}


# ------------------------------------------------------------------------------------ documents
def heads(rng, n):
    order = list(range(1, n + 1))
    rng.shuffle(order)
    h = {order[0]: 0} if order else {}
    shape = rng.choice(('random', 'chain', 'few'))
    for i, k in enumerate(order[1:], 1):
        h[k] = order[i - 1] if shape == 'chain' else rng.choice(order[:1 + i // 2] if shape == 'few' else order[:i])
        if rng.random() < .08:
            h[k] = 0
    return h


def misc(rng, names=('Mark', 'ToDo', 'Bug', 'My', 'X')):
    return [{'k': k, 'v': rng.choice(('1', 'a', 'b'))} for k in sorted(names, key=str.lower) if rng.random() < .2]


def words(rng, n=None, forms='abcd'):
    n = rng.choice((0, 1, 2, 3, 4, 6, 9)) if n is None else n
    h = heads(rng, n)
    return [{'k': k, 'h': h[k], 'f': rng.choice(forms), 'l': rng.choice('lm'), 'u': rng.choice(UPOS), 'd': rng.choice(('dep', 'obj', 'nsubj:x')), 'mi': misc(rng)} for k in range(1, n + 1)]


def fill(root, w):
    """Make the words; the keys of the nodes."""
    nodes = {}
    for x in w:
        nodes[x['k']] = root.create_child(form=x['f'], lemma=x['l'], upos=x['u'], deprel=x['d'])
        for pair in x['mi']:
            nodes[x['k']].misc[pair['k']] = pair['v']
    for x in w:
        if x['h']:
            nodes[x['k']].parent = nodes[x['h']]
    return {node: k for k, node in nodes.items()}


def pairs(mapping):
    return [{'k': k, 'v': str(v)} for k, v in sorted(mapping.items(), key=lambda x: x[0].lower())]


def shown(root, keys):
    return [{'k': keys.get(n, -1), 'h': 0 if n.parent is root else keys.get(n.parent, -1), 'f': n.form, 'l': n.lemma, 'u': n.upos, 'd': n.deprel, 'mi': pairs(n.misc)}
            for n in root.descendants]


def build(bundles):
    from udapi.core.document import Document
    doc, keys = Document(), {}
    for bundle in bundles:
        this = doc.create_bundle()
        for tree in bundle:
            root = this.create_tree(tree['z']) if tree['z'] else this.create_tree()
            keys[id(root)] = (root, fill(root, tree['w']))
    return doc, keys


def view(doc, keys):
    return [[{'z': root.zone or '', 'w': shown(root, keys[id(root)][1] if id(root) in keys else {})} for root in bundle.trees] for bundle in doc.bundles]


def condition(rng, kinds):
    t = rng.choice(kinds)
    v = {'upos': UPOS[:3], 'starts': ['N|V', 'P', 'X|Q', 'V|X'], 'ord': '123', 'big': '0123'}.get(t, [''])
    return {'t': t, 'v': rng.choice(v)}


def code(c, table):
    return None if not c['t'] else table[c['t']] % c['v'] if '%' in table[c['t']] else table[c['t']]


# --------------------------------------------------------------------------------- util.Filter
PARAMS = {'dt': ('delete_tree', TREE), 'dn': ('delete_tree_if_node', NODE), 'ds': ('delete_subtree', NODE), 'kt': ('keep_tree', TREE),
          'kn': ('keep_tree_if_node', NODE), 'ks': ('keep_subtree', NODE), 'ko': ('keep_node', NODE)}
ANY = list(NODE)
LOCAL = ['upos', 'upos', 'starts', 'marked']


@record('filter')
def run_filter(case, rec):
    from udapi.block.util.filter import Filter
    rec['out'] = []
    doc, keys = build(case['b'])
    p = case['p']
    Filter(mark=p['mark'] or None, **{PARAMS[k][0]: code(p[k], PARAMS[k][1]) for k in PARAMS if p[k]['t']}).run(doc)
    rec['out'] = view(doc, keys)


def no_params():
    return dict({k: NONE for k in PARAMS}, mark='')


def filter_cases(tier, seed, stim):
    rng = random.Random('filter%s' % seed)
    out = []
    for s in stim:
        if s['m'] == 'tree':
            for k in PARAMS:
                p = no_params()
                p[k] = condition(rng, list(TREE) if PARAMS[k][1] is TREE else LOCAL if k == 'ds' else ANY)
                p['mark'] = rng.choice(('', 'm')) if k == 'kn' else ''
                out.append({'b': [[{'z': '', 'w': s['w']}]], 'p': p})
    for _ in range(15000 if tier == 'thorough' else 1500):
        p = no_params()
        chosen = rng.sample(['dt', 'dn', 'ds', 'kt'], rng.choice((0, 0, 0, 1, 2))) + [rng.choice(['dt', 'dn', 'ds', 'kt', 'kn', 'kn', 'ks', 'ks', 'ko', 'ko'])]
        for k in chosen:
            p[k] = condition(rng, list(TREE) if PARAMS[k][1] is TREE else LOCAL if k == 'ds' else ANY)
        p['mark'] = rng.choice(('', 'm', '1')) if p['kn']['t'] else ''
        zones = rng.choice((['en'], ['en', 'cs'], ['en', 'cs', 'de']))
        out.append({'b': [[{'z': z, 'w': words(rng)} for z in zones] for _b in range(rng.choice((1, 2, 3)))], 'p': p})
    return out


# ----------------------------------------------------------------------------------- util.Mark
@record('mark')
def run_mark(case, rec):
    from udapi.block.util.mark import Mark
    rec.update(out=[], outE=[], count=-1)
    o = case['o']
    doc, keys = build(case['b'])
    empties = []
    for bundle, mine in zip(doc.bundles, case['e']):
        for root, q in zip(bundle.trees, mine):
            for x in q:
                node = root.descendants[0].create_empty_child('dep', form='e')
                node.upos = x['u']
                for pair in x['mi']:
                    node.misc[pair['k']] = pair['v']
                empties.append(node)
    kw = {} if o['mark'] == '1' else {'mark': o['mark']}
    if o['attr'] != 'Mark':
        kw['mark_attr'] = o['attr']
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        Mark(node=code(case['c'], NODE), add=o['add'], empty=o['empty'], print_stats=True, **kw).run(doc)
    rec['out'] = view(doc, keys)
    rec['outE'] = [pairs(node.misc) for node in empties]
    found = re.match(r'util\.Mark marked (\d+) nodes\n$', text.getvalue())
    rec['count'] = int(found.group(1)) if found else -1


def mark_cases(tier, seed, stim):
    rng = random.Random('mark%s' % seed)
    out = []
    for _ in range(6000 if tier == 'thorough' else 600):
        b = [[{'z': z, 'w': words(rng)} for z in rng.choice((['en'], ['en', 'cs']))] for _b in range(rng.choice((1, 2)))]
        empties = rng.random() < .4
        e = [[[{'u': rng.choice(UPOS), 'mi': misc(rng)} for _e in range(rng.choice((0, 1, 2)))] if empties and t['w'] else [] for t in bundle] for bundle in b]
        out.append({'b': b, 'e': e, 'c': condition(rng, LOCAL if empties else ANY),
                    'o': {'attr': rng.choice(('Mark', 'Mark', 'My')), 'mark': rng.choice(('1', 'yes', 'nonproj')), 'add': rng.random() < .5, 'empty': empties and rng.random() < .6}})
    return out


# ------------------------------------------------------------------------------------- util.Wc
@record('wc')
def run_wc(case, rec):
    from udapi.block.util.wc import Wc
    from udapi.core.document import Document
    rec['out'] = {}
    block = Wc(tsv=True) if case['tsv'] else Wc()
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        block.process_start()
        for one in case['docs']:
            doc = Document()
            for bundle in one:
                this = doc.create_bundle()
                for tree in bundle:
                    root = this.create_tree(tree['z'])
                    nodes = [root.create_child(form='w') for _w in range(tree['n'])]
                    for lo, hi in tree['t']:
                        root.create_multiword_token(nodes[lo - 1:hi], form='t')
                    for _e in range(tree['e']):
                        (root.descendants[-1] if root.descendants else root).create_empty_child(**({'deprel': 'dep'} if root.descendants else {}))
                    root.newdoc, root.newpar = tree['nd'], tree['np']
            block.apply_on_document(doc)
        block.process_end()
    lines = text.getvalue().split('\n')
    if case['tsv']:
        names = ('trees', 'words', 'tokens', 'multi-word tokens', 'empty nodes', 'documents', 'paragraphs')
        values = lines[0].split('\t')
        rec['out'] = {name: int(v) for name, v in zip(names, values)}
        if len(values) != 7 or lines[1:] != ['']:
            rec['x'] = 'format'
    else:
        for line in lines[:-1]:
            found = re.match(r'^ *(\d+) ([a-z -]+)$', line)
            if not found or found.group(2) in rec['out']:
                rec['x'] = 'format'
            else:
                rec['out'][found.group(2)] = int(found.group(1))


def wc_cases(tier, seed, stim):
    rng = random.Random('wc%s' % seed)
    out = []
    for _ in range(4000 if tier == 'thorough' else 600):
        zones = rng.choice((['en'], ['en', 'cs']))
        some = [rng.random() < .6 for _i in range(4)]
        docs = []
        for _d in range(rng.choice((1, 1, 2, 3))):
            doc = []
            for _b in range(rng.choice((1, 2, 4))):
                bundle = []
                for z in zones:
                    n = rng.choice((0, 1, 2, 5, 8))
                    t, at = [], 1
                    while some[0] and at < n:
                        hi = at + rng.choice((1, 1, 2))
                        if hi <= n and rng.random() < .4:
                            t.append([at, hi])
                            at = hi
                        at += 1
                    bundle.append({'z': z, 'n': n, 't': t, 'e': rng.choice((0, 1, 3)) if some[1] else 0,
                                   'nd': some[2] and rng.choice((False, False, True)), 'np': some[3] and rng.choice((False, True))})
                doc.append(bundle)
            docs.append(doc)
        out.append({'docs': docs, 'tsv': rng.random() < .5})
    return out


# ------------------------------------------------------------------------------------ util.See
STATS = ['dir', 'edge', 'depth', 'children', 'siblings', 'p_upos', 'p_lemma', 'c_upos', 'form', 'lemma', 'upos', 'deprel']


def values(root):
    """Values of the statistics; those of Node.get_attrs are decided by T08."""
    return [[[str(v) for v in node.get_attrs([s], undefs='')] for s in STATS] for node in root.descendants]


@record('see')
def run_see(case, rec):
    from udapi.block.util.see import See
    rec.update(values=[], head=[], stats=[], lines=[])
    docs = [build(b)[0] for b in case['docs']]
    want = [STATS.index(s) for s in case['stats']]
    rec['sel'] = case['stats']
    rec['values'] = [[[v[i] for i in want] for v in values(root)] for doc in docs for root in doc.trees]
    block = See(node=code(case['c'], NODE), n=case['n'], stats=','.join(case['stats']))
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        block.process_start()
        for doc in docs:
            block.apply_on_document(doc)
        block.process_end()
    lines = text.getvalue().split('\n')
    found = re.match(r'matches (\d+) out of (\d+) nodes \((\d+)\.(\d)%\) in (\d+) out of (\d+) trees \((\d+)\.(\d)%\)$', lines[1])
    a, b, p, p1, c, d, q, q1 = (int(x) for x in found.groups())
    rec['head'] = [a, b, 10 * p + p1, c, d, 10 * q + q1]
    if lines[0] != code(case['c'], NODE) or lines[-1]:
        rec['x'] = 'format'
    for line in lines[2:-1]:
        found = re.match(r'=== (.*) \((-?\d+) values?\) ===$', line)
        if found:
            rec['stats'].append({'s': found.group(1), 'n': int(found.group(2))})
            rec['lines'].append([])
        else:
            found = re.match(r' *(.*?) +(\d+) +(\d+)% delta= *([+-]\d+)%$', line)
            rec['lines'][-1].append({'v': found.group(1), 'n': int(found.group(2)), 'p': int(found.group(3)), 'd': int(found.group(4))})


def see_cases(tier, seed, stim):
    rng = random.Random('see%s' % seed)
    out = []
    for _ in range(3000 if tier == 'thorough' else 400):
        docs = [[[{'z': '', 'w': words(rng)}] for _b in range(rng.choice((1, 2, 4)))] for _d in range(rng.choice((1, 1, 2)))]
        docs[0][0][0]['w'] = docs[0][0][0]['w'] or words(rng, 3)
        out.append({'docs': docs, 'c': condition(rng, ANY), 'n': rng.choice((1, 2, 5)), 'stats': rng.sample(STATS, rng.choice((1, 3, 5)))})
    return out


# ------------------------------------------------------------------------------- util.MarkDiff
@record('diff')
def run_diff(case, rec):
    from udapi.block.util.markdiff import MarkDiff
    rec.update(outP=[], outG=[], comments=[False, False], lines=[])
    doc, keys = build([[{'z': 'pred', 'w': case['v']}, {'z': 'gold', 'w': case['w']}]])
    o = case['o']
    kw = {k: v for k, v in {'mark': o['mark'], 'mark_attr': o['attr']}.items() if v not in ('1', 'Mark')}
    if o['align']:
        kw['align'] = o['align']
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        MarkDiff(gold_zone='gold', attributes=','.join(o['A']), add=o['add'], ignore_parent=o['ip'], print_stats=o['stats'], **kw).run(doc)
    rec['outP'], rec['outG'] = [tree['w'] for tree in view(doc, keys)[0]]
    rec['comments'] = [('%s = %s' % (o['attr'], o['mark'])) in root.comment for root in doc.trees]
    for line in text.getvalue().split('\n')[:-1]:
        found = re.match(r'^ *(\d+) (.*)$', line)
        rec['lines'].append({'n': int(found.group(1)), 'e': found.group(2)})


def edited(rng, w):
    """The words with a few changes."""
    out = [dict(x) for x in w]
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        i = rng.randrange(len(out) + 1)
        how = rng.choice(('form', 'head', 'insert', 'delete', 'upos', 'swap'))
        if how == 'insert':
            out.insert(i, {'k': 100 + max([x['k'] for x in out] or [0]), 'h': 0, 'f': rng.choice('abe'), 'l': 'l', 'u': 'X', 'd': 'dep', 'mi': []})
        elif out and i < len(out):
            if how == 'form':
                out[i]['f'] = rng.choice('abcde')
            elif how == 'upos':
                out[i]['u'] = rng.choice(UPOS)
            elif how == 'delete':
                gone = out.pop(i)
                for x in out:
                    if x['h'] == gone['k']:
                        x['h'] = gone['h']
            elif how == 'swap' and i:
                out[i - 1], out[i] = out[i], out[i - 1]
            elif how == 'head':
                h = rng.choice([0] + [x['k'] for x in out])
                up, at = {x['k']: x['h'] for x in out}, h
                while at and at != out[i]['k']:
                    at = up[at]
                if not at:
                    out[i]['h'] = h
    numbers = {x['k']: n for n, x in enumerate(out, 1)}
    numbers[0] = 0
    return [dict(x, k=numbers[x['k']], h=numbers[x['h']], mi=misc(rng, ('Mark', 'Bug', 'X')) if rng.random() < .3 else x['mi']) for x in out]


def diff_cases(tier, seed, stim):
    rng = random.Random('diff%s' % seed)
    out = []
    for s in stim:
        if s['m'] == 'pair':
            out.append({'v': s['v'], 'w': s['w'], 'o': {'A': ['form'], 'ip': rng.random() < .3, 'add': rng.random() < .5, 'mark': '1', 'attr': 'Mark', 'align': rng.choice(('', 'both')), 'stats': -1}})
    for _ in range(11200 if tier == 'thorough' else 2000):
        few = rng.choice(('ab', 'abc', 'abcdefgh'))
        v = words(rng, rng.choice((0, 1, 2, 3, 5, 8)), few)
        w = edited(rng, v) if rng.random() < .7 else words(rng, None, few)
        if rng.random() < .2:
            v, w = w, v
        stats = rng.choice((0, 0, -1, 2))
        attrs = rng.choice((['form'], ['form', 'upos'], ['lemma', 'upos', 'deprel'], ['form', 'lemma', 'upos', 'deprel']))
        if not stats and rng.random() < .3:
            attrs = attrs + ['misc']
        out.append({'v': v, 'w': w, 'o': {'A': attrs, 'ip': rng.random() < .3, 'add': rng.random() < .4, 'stats': stats,
                                          'mark': rng.choice(('1', '1', 'diff')), 'attr': rng.choice(('Mark', 'Mark', 'My')), 'align': rng.choice(('', '', 'both', 'from-pred', 'from-gold'))}})
    return out


# ------------------------------------------------------------------------------ util.Normalize
@record('normalize')
def run_normalize(case, rec):
    from udapi.block.util.normalize import Normalize
    from udapi.core.document import Document
    rec.update(ids=[], feats=[], misc=[], ords=[], deps=[], newdocs=[])
    o = case['o']
    kw = {k: v for k, v in {'feats': o['feats'], 'misc': o['misc'], 'empty_node_ord': o['ords'], 'sent_id': o['ids'], 'start_sent_id': o['start'], 'sent_id_prefix': o['prefix'],
                            'sent_id_from_filename': o['file'], 'sent_id_reset_at_newdoc': o['reset'], 'newdoc_from_filename': o['nd']}.items()}
    block = Normalize(**kw)
    docs = []
    with tempfile.TemporaryDirectory(dir=SCRATCH) as folder:
        for number, one in enumerate(case['docs']):
            path = os.path.join(folder, case['stems'][number] + '.conllu')
            with open(path, 'w', encoding='utf-8') as out:
                for b, bundle in enumerate(one, 1):
                    for z in bundle['z']:
                        if bundle['nd'] and z == bundle['z'][0]:
                            out.write('# newdoc id = old\n')
                        out.write('# sent_id = s%d%s\n' % (b, '/' + z if z else ''))
                        for p in range(0, len(bundle['w']) + 1):
                            if p:
                                x = bundle['w'][p - 1]
                                out.write('\t'.join([str(p), 'w%d' % p, '_', '_', '_', x['feats'], '0' if p == 1 else '1', 'dep', '%s:x' % x['dep'] if x['dep'] else '_', x['misc']]) + '\n')
                            for e in bundle['e']:
                                if int(e.split('.')[0]) == p:
                                    out.write('\t'.join([e, 'e' + e] + ['_'] * 6 + ['1:y', '_']) + '\n')
                        out.write('\n')
            docs.append(Document(path))
    for doc in docs:
        block.run(doc)
    for doc in docs:
        for bundle in doc.bundles:
            rec['ids'].append(bundle.bundle_id)
            for root in bundle.trees:
                rec['feats'].append([str(n.feats) for n in root.descendants])
                rec['misc'].append([str(n.misc) for n in root.descendants])
                rec['ords'].append([str(n.ord) for n in root.empty_nodes])
                rec['deps'].append([[d['parent'].form for d in n.deps] for n in root.descendants])
                rec['newdocs'].append(root.newdoc or '' if not isinstance(root.newdoc, bool) else str(root.newdoc))
    rec['sent'] = [root.sent_id for doc in docs for root in doc.trees]
    # the text has to be that of the objects
    for doc in docs:
        if len({b.bundle_id for b in doc.bundles}) < len(doc.bundles):
            continue  # numbering starts again in the same file
        again = Document()
        again.from_conllu_string(doc.to_conllu_string())
        mine = [[[d['parent'].form for d in n.deps] for n in root.descendants_and_empty] for root in doc.trees]
        if mine != [[[d['parent'].form for d in n.deps] for n in root.descendants_and_empty] for root in again.trees]:
            rec['x'] = 'deps written'


def shuffled(rng, items):
    items = [x for x in items if rng.random() < .6]
    rng.shuffle(items)
    return '|'.join(items) or '_'


def normalize_cases(tier, seed, stim):
    rng = random.Random('normalize%s' % seed)
    out = []
    for _ in range(4000 if tier == 'thorough' else 500):
        docs = []
        zones = rng.choice(([''], [''], ['en', 'cs']))
        for _d in range(rng.choice((1, 2, 3))):
            doc = []
            for b in range(rng.choice((1, 2, 4))):
                n = rng.choice((1, 2, 3))
                e = sorted(rng.sample(['%d.%d' % (a, i) for a in range(n + 1) for i in range(1, 6)], rng.choice((0, 0, 1, 2, 4))))
                doc.append({'z': zones, 'nd': b == 0 or rng.random() < .3, 'e': e,
                            'w': [{'feats': shuffled(rng, ['Case=Nom', 'Aspect=Imp', 'gender=Fem', 'Number=Sing', 'Foreign=Yes']), 'misc': shuffled(rng, ['X=1', 'b=2', 'A=3', 'SpaceAfter=No', 'c=d=e']),
                                   'dep': rng.choice([''] + e)} for _w in range(n)]})
            docs.append(doc)
        file = rng.random() < .4
        o = {'feats': rng.random() < .7, 'misc': rng.random() < .7, 'ords': rng.random() < .6, 'ids': rng.random() < .3, 'start': rng.choice((1, 1, 5)), 'prefix': rng.choice(('', '', 's-')),
             'file': file, 'reset': file and rng.random() < .5, 'nd': rng.random() < .3}
        out.append({'docs': docs, 'stems': rng.sample(['f1', 'x.y', 'doc'], len(docs)), 'o': o,
                    'nds': [[b['nd'] for b in doc] for doc in docs], 'new': o['ids'] or o['start'] != 1 or o['prefix'] != '' or file})
    return out


# ------------------------------------------------------------------------------------ util.Eval
NAMES = ['start', 'end', 'before_doc', 'doc', 'after_doc', 'before_bundle', 'bundle', 'after_bundle', 'tree', 'node', 'mwt', 'coref_entity', 'coref_mention']
SAID = {'start': '""', 'end': '""', 'before_doc': 'doc.meta["name"]', 'doc': '$.meta["name"]', 'after_doc': 'document.meta["name"]', 'before_bundle': 'this.bundle_id', 'bundle': 'bundle.bundle_id',
        'after_bundle': '$.bundle_id', 'tree': 'tree.sent_id', 'node': 'node.root.sent_id+" "+$.form', 'mwt': 'mwt.words[0].root.sent_id+" "+$.form', 'coref_entity': '$.eid', 'coref_mention': '$.head.form'}


@record('eval')
def run_eval(case, rec):
    from udapi.block.util.eval import Eval
    from udapi.core.document import Document
    rec.update(log=[], counts=[])
    del LOG[:]
    kw = {name: '__import__("selecting").LOG.append(("%s", %s)); count_"%s" += 1' % (name, SAID[name], name) for name in case['P']}
    if case['Z']:
        kw['zones'] = ','.join(case['Z'])
    block = Eval(empty_nodes=case['emp'], **kw)
    docs = []
    for one in case['docs']:
        doc = Document()
        doc.meta['name'] = one['id']
        for bundle in one['b']:
            this = doc.create_bundle()
            for tree in bundle['t']:
                root = this.create_tree(tree['z'])
                for x in tree['n']:
                    if x['e']:
                        root.descendants[-1].create_empty_child('dep', after=True, form=x['id'].split(' ')[1])
                    else:
                        root.create_child(form=x['id'].split(' ')[1])
                if tree['t']:
                    root.create_multiword_token(root.descendants[:2], form=tree['t'][0].split(' ')[1])
        first = next((t for t in doc.trees if t.descendants), None)
        for entity in one['c']:
            e = doc.create_coref_entity(entity['id'])
            for m in entity['ms']:
                e.create_mention(head=next(n for n in first.descendants if n.form == m))
        docs.append(doc)
    block.process_start()
    for doc in docs:
        block.apply_on_document(doc)
    block.process_end()
    rec['log'] = [list(x) for x in LOG]
    rec['counts'] = sorted([k, v] for k, v in block.count.items())


def eval_cases(tier, seed, stim):
    rng = random.Random('eval%s' % seed)
    out = []
    for _ in range(3000 if tier == 'thorough' else 400):
        docs = []
        for d in range(rng.choice((1, 2))):
            bundles, first = [], []
            for b in range(1, 1 + rng.choice((1, 2, 3))):
                trees = []
                for z in rng.choice((['en'], ['en', 'cs'], ['cs', 'en', 'de'])):
                    sent = '%d/%s' % (b, z)
                    n = [{'id': '%s w%d' % (sent, i), 'e': i > 1 and rng.random() < .2} for i in range(1, 1 + rng.choice((0, 1, 2, 4)))]
                    full = [x['id'].split(' ')[1] for x in n if not x['e']]
                    first = first or full
                    trees.append({'z': z, 'id': sent, 'n': n, 't': [sent + ' t'] if len(full) > 1 and rng.random() < .4 else []})
                bundles.append({'id': str(b), 't': trees})
            # mentions of the first tree with words
            c = [{'id': 'e%d' % i, 'ms': sorted(rng.sample(first, rng.choice((1, len(first)))))} for i in range(1, 1 + rng.choice((0, 1, 2)))] if first else []
            docs.append({'id': 'd%d' % d, 'b': bundles, 'c': c})
        out.append({'docs': docs, 'P': sorted(rng.sample(NAMES, rng.choice((1, 2, 4, 8, 13)))), 'Z': rng.choice(([], [], ['en'], ['cs', 'de'])), 'emp': rng.random() < .4})
    return out


# ----------------------------------------------------------------------------------- util.Split
@record('split')
def run_split(case, rec):
    from udapi.core.document import Document
    from udapi.block.util.split import Split
    rec.update(sizes=[], order=[], owned=True)
    doc = Document()
    for i in range(case['n']):
        doc.create_bundle().create_tree().create_child(form='w%d' % (i + 1))
    block = Split(parts=case['parts']) if case['parts'] else Split(bundles_per_doc=case['size'])
    first = True
    while not block.finished:
        part = doc if first else Document()
        first = False
        block.apply_on_document(part)
        rec['sizes'].append(len(part.bundles))
        rec['order'] += [int(b.trees[0].descendants[0].form[1:]) for b in part.bundles]
        rec['owned'] = rec['owned'] and all(b.document is part for b in part.bundles)
        if len(rec['sizes']) > 50:
            break


def split_cases(tier, seed, stim):
    return [{'n': n, 'parts': parts, 'size': size} for n in range(1, 13) for parts, size in [(p, 0) for p in range(1, 8)] + [(0, s) for s in range(1, 8)]]


MC = [dict(module='MC_Select', cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS FilterInv NodesInv SubtreeInv DiffInv EmitInv\nCONSTANTS N=3 M=2 Emit=TRUE\n',
           thorough_cfg='SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS FilterInv NodesInv SubtreeInv DiffInv EmitInv\nCONSTANTS N=4 M=3 Emit=TRUE\n')]
PARTS = [
    Part('filter', 'Trace_Select', run_filter, filter_cases, mc=MC),
    Part('mark', 'Trace_Select', run_mark, mark_cases),
    Part('wc', 'Trace_Select', run_wc, wc_cases),
    Part('see', 'Trace_Select', run_see, see_cases),
    Part('diff', 'Trace_Select', run_diff, diff_cases, mc=MC),
    Part('normalize', 'Trace_Select', run_normalize, normalize_cases),
    Part('eval', 'Trace_Select', run_eval, eval_cases),
    Part('split', 'Trace_Select', run_split, split_cases),
]
