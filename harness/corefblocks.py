"""Blocks which edit coreference (specification: CorefBlocks)."""
import contextlib
import io
import random

import coref
from text import record
from tlv.core import Part

DEPRELS = ['dep', 'obj', 'nsubj']


# -------------------------------------------------------------------------------- documents
def sentence(rng, size=None, empties=.25, enhanced=.5, lemmas=('l',)):
    n = size or rng.choice((1, 2, 3, 5, 7))
    em = [p > 0 and rng.random() < empties for p in range(n)]
    full = [p for p in range(1, n + 1) if not em[p - 1]]
    order = full[:]
    rng.shuffle(order)
    h = [0] * n
    near = rng.random() < .5
    for i, p in enumerate(order[1:], 1):
        h[p - 1] = rng.choice(order[max(0, i - 2) if near else 0:i])
        if rng.random() < .1:
            h[p - 1] = 0
    some = any(em) or rng.random() < enhanced
    d = []
    for p in range(1, n + 1):
        deps = []
        if some:
            if em[p - 1]:
                parents = [q for q in range(0, n + 1) if q != p and (q or rng.random() < .5)]
                count = rng.choice((1, 1, 1, 2, 3))
                deps = [{'p': q, 'r': rng.choice(DEPRELS) if q else 'root'} for q in rng.sample(parents, min(count, len(parents)))]
            else:
                if rng.random() < .85:
                    deps.append({'p': h[p - 1], 'r': rng.choice(DEPRELS) if h[p - 1] else 'root'})
                extra = [q for q in range(1, n + 1) if q != p and (em[q - 1] or rng.random() < .3) and q not in [x['p'] for x in deps]]
                if extra and (not deps or rng.random() < .5):
                    deps.append({'p': rng.choice(extra), 'r': rng.choice(DEPRELS)})
                if not deps:
                    deps.append({'p': 0, 'r': 'root'})
        if deps and rng.random() < .1:
            again = dict(deps[0], r='conj')
            if again['p']:
                deps.append(again)
        ords = [float(x) for x in coref.ords_of(em)]
        d.append(sorted(deps, key=lambda x: (ords[x['p'] - 1] if x['p'] else 0, x['r'])))
    return {'em': em, 'h': h, 'd': d, 'le': [rng.choice(lemmas) for _ in range(n)]}


def text_of(sents, newdocs, misc=None):
    out = []
    for s, sent in enumerate(sents):
        ords = coref.ords_of(sent['em'])
        if newdocs[s]:
            out.append('# newdoc id = n%d' % (s + 1))
        out.append('# sent_id = s%d' % (s + 1))
        at = lambda p: ords[p - 1] if p else '0'  # pylint: disable=cell-var-from-loop
        for p, ord_ in enumerate(ords, 1):
            empty = sent['em'][p - 1]
            deps = sorted(sent['d'][p - 1], key=lambda x: (float(at(x['p'])), x['r']))  # pylint: disable=cell-var-from-loop
            out.append('\t'.join([ord_, 'w%d' % p, sent['le'][p - 1], 'NOUN', '_', '_', '_' if empty else at(sent['h'][p - 1]), '_' if empty else 'dep',
                                  '|'.join('%s:%s' % (at(x['p']), x['r']) for x in deps) or '_', (misc[s][p - 1] if misc else '') or '_']))
        out.append('')
    return '\n'.join(out) + '\n'


def build(case, d=None, misc=None):
    """The sentences with the entities."""
    doc = coref.read(text_of(case['S'], case['nd'], misc))
    coref.annotate(doc, case['d'] if d is None else d)
    return doc


def marks(doc):
    return [[p for p, node in enumerate(tree.descendants_and_empty, 1) if node.misc['Mark']] for tree in doc.trees]


def quiet(run):
    with contextlib.redirect_stdout(io.StringIO()):
        run()


def result(rec, doc):
    """What there is, and is it possible to store and load it?"""
    rec['d2'], rec['c'] = coref.entities(doc)
    try:
        back = coref.read(doc.to_conllu_string())
        rec['back'] = len(back.coref_mentions)
    except Exception as error:  # pylint: disable=broad-except
        rec['backx'] = '%s: %s' % (type(error).__name__, error)


def edit(op, make, after=None, misc=None):
    """A part function: build the document, run the block, look."""
    @record(op)
    def run(case, rec):
        rec.update({'d2': [], 'c': [], 'back': 0, 'backx': '', 'marks': [[] for _ in case['S']]})
        doc = build(case, misc=misc(case) if misc else None)
        rec['d'] = coref.entities(doc)[0]
        block = make(case['o'], case)
        quiet(lambda: block.run(doc))
        result(rec, doc)
        rec['marks'] = marks(doc)
        if after:
            after(case, rec, doc, block)
    return run


def block(name, cls, options):
    """A maker of blocks; options: parameter -> name in the case."""
    def make(o, _case):
        import importlib
        module = importlib.import_module('udapi.block.corefud.' + name)
        return getattr(module, cls)(**{param: o[key] for param, key in options.items()})
    return make


def make_marks(o, case):
    return {'crossing': block('markcrossing', 'MarkCrossing', {'same_entity_only': 'same', 'continuous_only': 'cont'}),
            'interleaved': block('markinterleaved', 'MarkInterleaved', {'same_entity_only': 'same', 'both_discontinuous': 'both'}),
            'nested': block('marknested', 'MarkNested', {'same_entity_only': 'same', 'both_discontinuous': 'both', 'multiword_only': 'multi'}),
            'subspan': block('marksamesubspan', 'MarkSameSubSpan', {'same_entity_only': 'same', 'both_discontinuous': 'both', 'nested_only': 'nest'}),
            }[case['kind']](o, case)


# -------------------------------------------------------------------------------- IDs
@record('ids')
def run_ids(case, rec):
    from udapi.block.corefud.indexclusters import IndexClusters
    rec.update({'d2': [], 'c': [], 'back': 0, 'backx': '', 'e2': [], 'keys': []})
    first, second = build(case), build(case, case['e'])
    rec['d'], rec['e'] = coref.entities(first)[0], coref.entities(second)[0]
    this = IndexClusters(start=case['o']['start'], prefix=case['o']['prefix'])
    this.run(first)
    this.run(second)
    result(rec, first)
    rec['e2'] = coref.entities(second)[0]
    rec['keys'] = list(first.eid_to_entity)


# -------------------------------------------------------------------------------- links
ATTRS = {'id': 'proiel-id', 'ante': 'antecedent-proiel-id', 'inf': 'information-status', 'cof': 'coreftype', 'bridge': 'br', 'rel': 'brr'}


@record('links')
def run_links(case, rec):
    from udapi.block.corefud.link2cluster import Link2Cluster
    rec.update({'d2': [], 'c': [], 'back': 0, 'backx': '', 'left': []})
    misc = [['|'.join('%s=%s' % (ATTRS[key], case['n'][i - 1][key]) for key in sorted(ATTRS, key=lambda k: ATTRS[k].lower()) if case['n'][i - 1][key]) for i in flat]
            for flat in case['flat']]
    doc = build(case, [], misc)
    Link2Cluster(delete_orig_attrs=case['o']['del'], bridge_attr='br', bridge_relation_attr='brr', eid_counter=case['o']['counter']).run(doc)
    result(rec, doc)
    rec['left'] = [str(node.misc) for node in doc.nodes_and_empty if any(node.misc[a] for a in ATTRS.values()) and node.coref_mentions]


# -------------------------------------------------------------------------------- deleting
def deps_view(doc):
    out = []
    for tree in doc.trees:
        nodes = tree.descendants_and_empty
        number = {node: int(node.form[1:]) for node in nodes}
        number[tree] = 0
        out.append({number[node]: [{'p': number.get(x['parent'], -1), 'r': x['deprel']} for x in node.deps] for node in nodes})
    return out


def after_trees(case, rec, doc):
    """Heads, enhanced dependencies and empty nodes by the old numbers of words."""
    deps = deps_view(doc)
    rec['D2'] = [[view.get(p, [{'p': -1, 'r': ''}]) for p in range(1, len(s['em']) + 1)] for view, s in zip(deps, case['S'])]
    rec['H2'], rec['E2'] = [], []
    for tree, s in zip(doc.trees, case['S']):
        heads = {int(n.form[1:]): int(n.parent.form[1:]) if not n.parent.is_root() else 0 for n in tree.descendants}
        rec['H2'].append([heads.get(p, -1) for p in range(1, len(s['em']) + 1)])
        rec['E2'].append([int(n.form[1:]) for n in tree.empty_nodes])


@record('delete')
def run_delete(case, rec):
    from udapi.block.corefud.delete import Delete
    rec.update({'d2': [], 'c': [], 'back': 0, 'backx': '', 'D2': [], 'H2': [], 'E2': [], 'notes': 0, 'misc': 0, 'space': [], 'space0': []})
    misc = [['SpaceAfter=No|X=1' if p % 3 == 0 else 'SpaceAfter=No' if p % 3 == 1 else 'Y=2' for p in range(len(s['em']))] for s in case['S']]
    doc = build(case, misc=misc)
    if not case['loaded']:
        text = doc.to_conllu_string()
        rec['d'] = coref.entities(coref.read(text))[0]
        doc = coref.read(text)
    else:
        rec['d'] = coref.entities(doc)[0]
    gone = {('s%d' % s, p) for s, sent in enumerate(case['S'], 1) for p in range(1, len(sent['em']) + 1) if sent['em'][p - 1] and case['o']['empty']}
    space = lambda: sorted('%s %s' % (n.root.sent_id, n.form) for n in doc.nodes_and_empty
                           if n.misc['SpaceAfter'] == 'No' and (n.root.sent_id, int(n.form[1:])) not in gone)
    rec['space0'] = space()
    Delete(**{k: case['o'][k] for k in ('coref', 'empty', 'misc')}).run(doc)
    after_trees(case, rec, doc)
    rec['space'] = space()
    rec['misc'] = sum(1 for n in doc.nodes_and_empty if any(k not in ('SpaceAfter',) for k in n.misc))
    if case['o']['coref'] or not case['o']['empty']:
        result(rec, doc)
        text = doc.to_conllu_string()
        rec['notes'] = sum(text.count(x + '=') for x in ('Entity', 'Bridge', 'SplitAnte'))


@record('single')
def run_single(case, rec):
    from udapi.block.corefud.singleparent import SingleParent
    rec.update({'d2': [], 'c': [], 'back': 0, 'backx': '', 'D2': []})
    doc = build(case)
    SingleParent().run(doc)
    after_trees(case, rec, doc)
    result(rec, doc)


# -------------------------------------------------------------------------------- cases
def random_case(rng, ids=None, links=True, plain=False, per=(1, 1, 2, 3), close=False, **kwargs):
    count = rng.choice((1, 1, 2))
    S = [sentence(rng, **kwargs) for _ in range(count)]
    ids = ids or rng.sample(['e1', 'e2', 'e10', 'b', 'E1', 'x'], rng.choice((1, 2, 2, 3)))
    d = []
    for name in ids:
        ms = []
        for _ in range(rng.choice(per)):
            s = rng.randrange(count) + 1
            n = len(S[s - 1]['em'])
            w = sorted(coref.some_span(rng, [0] * n)) if not close or rng.random() < .6 else sorted(rng.sample(range(1, n + 1), rng.randrange(1, n + 1)))
            b = [{'t': t, 'r': rng.choice(coref.RELS)} for t in rng.sample([i for i in ids if i != name], min(len(ids) - 1, rng.choice((0, 0, 1))))] if links else []
            ms.append({'s': s, 'w': w, 'h': rng.choice(w), 'o': [{'k': 'k', 'v': 'v%d' % rng.randrange(3)}] if rng.random() < .3 else [], 'b': b})
        if plain:
            kept = []
            for m in ms:
                if all((m['s'], m['w']) != (x['s'], x['w']) for x in kept):
                    kept.append(m)
            ms = kept
        d.append({'id': name, 'ty': rng.choice(['', 'person']), 'ms': ms, 'sa': []})
    return {'S': S, 'nd': [s == 0 or rng.random() < .5 for s in range(count)], 'd': d, 'o': {}}


def cases(name, quick, opts, change=None, use=False, **kwargs):
    def make(tier, seed, stim):
        rng = random.Random('%s%s' % (name, seed))
        out = []
        if use:
            few = rng.sample(stim, min(len(stim), 20000 if tier == 'thorough' else 500))
            out = [{'S': [x['s']], 'nd': [True], 'd': x['d'], 'o': opts(rng)} for x in few]
        for _ in range(quick * (8 if tier == 'thorough' else 1)):
            case = random_case(rng, **kwargs)
            case['o'] = opts(rng)
            if change:
                change(rng, case)
            out.append(case)
        return out
    return make


def coin(rng):
    return rng.random() < .5


def marks_change(rng, case):
    case['kind'] = rng.choice(['crossing', 'interleaved', 'nested', 'subspan'])


def marks_opts(rng):
    return {key: rng.random() < .3 for key in ('same', 'both', 'cont', 'multi', 'nest')}


def ids_change(rng, case):
    case['e'] = random_case(rng)['d']
    other = [len(s['em']) for s in case['S']]
    for e in case['e']:
        e['ms'] = [m for m in e['ms'] if m['s'] <= len(other) and m['w'][-1] <= other[m['s'] - 1]] or [{'s': 1, 'w': [1], 'h': 1, 'o': [], 'b': []}]


def antecedents(rng, case):
    names = [e['id'] for e in case['d']]
    for e in case['d']:
        others = [n for n in names if n != e['id']]
        if len(others) > 1 and rng.random() < .4:
            e['sa'] = rng.sample(others, 2)


def storable(case):
    """Leave out mentions which share a part of a sentence with another one of the entity."""
    for e in case['d']:
        kept = []
        for m in e['ms']:
            if not any(m['s'] == x['s'] and (set(range(m['w'][0], m['w'][-1] + 1)) & set(range(x['w'][0], x['w'][-1] + 1))) for x in kept):
                kept.append(m)
        e['ms'] = kept


def newdoc_change(_rng, case):
    number, of = 0, []
    for s, new in enumerate(case['nd']):
        number += new or s == 0
        of.append('d%d.' % number)
    case['docs'] = of
    storable(case)
    has = {(e['id'], of[m['s'] - 1]) for e in case['d'] for m in e['ms']}
    for e in case['d']:
        for m in e['ms']:
            m['b'] = [x for x in m['b'] if (x['t'], of[m['s'] - 1]) in has]


def links_cases(tier, seed, _stim):
    rng = random.Random('links%s' % seed)
    out = []
    for _ in range(6000 if tier == 'thorough' else 800):
        case = random_case(rng, enhanced=0)
        total = sum(len(s['em']) for s in case['S'])
        names = ['n%d' % i for i in range(1, total + 1)]
        n, flat, i = [], [], 0
        order = list(range(total))
        rng.shuffle(order)
        loops = rng.random() < .1
        for k in range(total):
            before = [names[j] for j in order[:order.index(k)]] if not loops else names
            n.append({'id': names[k] if rng.random() < .9 else '', 'ante': rng.choice(before + ['other']) if before and coin(rng) else '',
                      'inf': rng.choice(['', 'new']), 'cof': rng.choice(['', 'ident']), 'bridge': '', 'rel': ''})
        for s in case['S']:
            flat.append(list(range(i + 1, i + 1 + len(s['em']))))
            i += len(s['em'])
        case.update({'n': n, 'flat': flat, 'd': [], 'o': {'del': coin(rng), 'counter': rng.choice((0, 1, 5))}})
        # bridging to another entity
        group = groups(n)
        for k in range(total):
            others = [names[j] for j in range(total) if group[j] != group[k]]
            if others and rng.random() < .25:
                n[k]['bridge'], n[k]['rel'] = rng.choice(others + ['other']), rng.choice(['', 'part'])
        out.append(case)
    return out


def groups(n):
    group = list(range(len(n)))
    where = {x['id']: k for k, x in enumerate(n) if x['id']}
    for _ in n:
        for k, x in enumerate(n):
            if x['id'] and x['ante'] in where:
                group[k] = group[where[x['ante']]] = min(group[k], group[where[x['ante']]])
    return group


def delete_change(rng, case):
    case['loaded'] = coin(rng)
    storable(case)


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS HeadInv SpanInv DepsInv EmitInv\nCONSTANTS K=%d K2=%d Emit=TRUE\n'
MC = [dict(module='MC_CorefBlocks', cfg=CFG % (3, 1), thorough_cfg=CFG % (3, 2))]
NONE = lambda rng: {}  # noqa: E731


def part(name, make, make_cases, **kwargs):
    return Part(name, 'Trace_CorefBlocks', edit(name, make, **kwargs), make_cases, mc=MC if name in ('heads', 'spans') else ())


PARENS = ('(', ')', '[', ']', '{', 'l', 'l')
PARTS = [
    part('heads', block('movehead', 'MoveHead', {'keep_head_if_possible': 'keep', 'bugs': 'bugs'}),
         cases('heads', 700, lambda rng: {'keep': coin(rng), 'bugs': rng.choice(['warn', 'mark', ''])}, use=True, close=True)),
    part('spans', block('guessspan', 'GuessSpan', {}), cases('spans', 700, NONE, use=True, empties=.35)),
    part('parens', block('fixparentheses', 'FixParentheses', {'mark': 'mark'}), cases('parens', 900, lambda rng: {'mark': coin(rng)}, lemmas=PARENS)),
    part('marks', make_marks, cases('marks', 1200, marks_opts, marks_change, close=True)),
    part('samespan', block('mergesamespan', 'MergeSameSpan', {'same_entity_only': 'same'}), cases('samespan', 700, lambda rng: {'same': coin(rng)}, size=3)),
    part('interleaved', block('fixinterleaved', 'FixInterleaved', {'same_entity_only': 'same', 'both_discontinuous': 'both', 'crossing_only': 'crossing', 'nested_same_subspan': 'nest'}),
         cases('interleaved', 1000, lambda rng: {'same': rng.random() < .8, 'both': rng.random() < .2, 'crossing': rng.random() < .3, 'nest': coin(rng)}, plain=True, per=(1, 2, 2, 2), close=True)),
    part('nocoref', block('removenocorefentities', 'RemoveNoCorefEntities', {}), cases('nocoref', 400, NONE, antecedents, ids=['NOCOREF1', 'e1', 'NOCOREFx', 'b', 'xNOCOREF'])),
    part('newdoc', block('fixentityacrossnewdoc', 'FixEntityAcrossNewdoc', {}), cases('newdoc', 500, NONE, newdoc_change)),
    Part('ids', 'Trace_CorefBlocks', run_ids, cases('ids', 400, lambda rng: {'start': rng.choice((1, 7)), 'prefix': rng.choice(['e', 'c', 'x1'])}, ids_change)),
    Part('links', 'Trace_CorefBlocks', run_links, links_cases),
    Part('delete', 'Trace_CorefBlocks', run_delete, cases('delete', 900, lambda rng: {'coref': rng.random() < .7, 'empty': coin(rng), 'misc': rng.random() < .3}, delete_change, empties=.35)),
    Part('single', 'Trace_CorefBlocks', run_single, cases('single', 500, NONE, empties=.35)),
]
