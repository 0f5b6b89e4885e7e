"""Attribute mappings: FEATS, MISC, "other" of mentions; dependency relation parts (specification: DualMap)."""
import json
import random

from tlv.core import Part

MAPS = {'1': [], '2': [['a', '=1']], '3': [['B', '!'], ['a', '=x=y']]}


def enc(value):
    return '!' if value is True else '=' + value if isinstance(value, str) else '?' + repr(value)


def dec(text):
    return True if text == '!' else text[1:]


class Slots:
    """Two mappings of one kind; how they are assigned depends on where they live."""

    def __init__(self, kind):
        from udapi.core.dualdict import DualDict
        from udapi.core.feats import Feats
        from udapi.core.coref import OtherDualDict
        from udapi.core.document import Document
        self.kind = kind
        doc = Document()
        root = doc.create_bundle().create_tree()
        nodes = [root.create_child(form=str(i)) for i in range(6)]
        self.cls = {'DualDict': DualDict, 'Feats': Feats, 'other': OtherDualDict}.get(kind)
        if self.cls:
            self.own = [self.cls(), self.cls()]
        elif kind in ('feats', 'misc'):
            self.own, self.attr = nodes[:2], kind
        elif kind == 'mwt':
            self.own = [root.create_multiword_token(nodes[i:i + 2], form='x') for i in (2, 4)]
            self.attr = 'misc'
        elif kind == 'mention':
            entity = doc.create_coref_entity()
            self.own = [entity.create_mention(head=n, words=[n]) for n in nodes[:2]]
            self.attr = 'other'

    def get(self, i):
        return self.own[i] if self.cls else getattr(self.own[i], self.attr)

    def assign(self, i, value):
        if self.cls:
            self.own[i].set_mapping(value)
        else:
            setattr(self.own[i], self.attr, value)

    def replace(self, i, mapping):
        if self.cls:
            self.own[i] = mapping
        else:
            setattr(self.own[i], '_' + self.attr, mapping)


def call(slots, op):
    """One call: returns its result."""
    i, kind = op['d'] - 1, op['o']
    if kind == 'assign':
        slots.assign(i, op['v'] if op['v'] != '' or not op.get('none') else None)
    elif kind == 'assignmap':
        slots.assign(i, {k: dec(v) for k, v in op['v']})
    elif kind == 'assignbad':
        slots.assign(i, 42)
    elif kind == 'assignfrom':
        slots.assign(i, slots.get(1 - i))
    elif kind == 'copy':
        slots.own[i] = slots.own[1 - i].copy()
    else:
        d = slots.get(i)
        if kind == 'set':
            d[op['k']] = None if op.get('none') else dec(op['v'])
        elif kind == 'del':
            del d[op['k']]
        elif kind == 'clear':
            d.clear()
        elif kind == 'update':
            d.update({k: dec(v) for k, v in op['v']})
        elif kind == 'pop':
            return enc(d.pop(op['k']))
        elif kind == 'get':
            if slots.kind in ('feats', 'misc') and op.get('attrs'):
                return enc(slots.own[i].get_attrs(['%s[%s]' % (slots.attr, op['k'])], stringify=False)[0])
            if slots.kind == 'misc' and op['k'] == 'Gloss':
                return enc(slots.own[i].gloss)
            return enc(d[op['k']])
        elif kind == 'contains':
            return op['k'] in d
        elif kind == 'len':
            return len(d)
        elif kind == 'items':
            return [[k, enc(v)] for k, v in d.items()]
        elif kind == 'eq':
            return slots.get(0) == slots.get(1)
        elif kind == 'text':
            return str(d)
        elif kind == 'split':
            return slots.own[i].get_attrs([slots.attr + '_split'])
        else:
            raise RuntimeError(kind)
    return ''


def run_dict(case, emit):
    slots = Slots(case['kind'])
    out = []
    for op in case['ops']:
        op = dict(op)
        op['x'], op['r'] = '', ''
        try:
            op['r'] = call(slots, op)
        except Exception as error:  # pylint: disable=broad-except
            op['x'] = type(error).__name__
        op.pop('none', None)
        op.pop('attrs', None)
        out.append(op)
    emit({'k': 'hist', 'op': 'dict', 'kind': {'other': 'other', 'mention': 'other'}.get(case['kind'], 'misc'), 'ops': out})


KINDS = ('DualDict', 'Feats', 'feats', 'misc', 'mwt', 'other', 'mention')
FINAL = [{'o': o, 'd': d, 'k': '', 'v': ''} for o in ('items', 'text', 'items', 'len') for d in (1, 2)]


def exhaustive_cases(tier, seed, stim):
    out = []
    other = str.maketrans({'|': ',', '=': ':'})
    stim = sorted(stim, key=lambda s: json.dumps(s, sort_keys=True))
    for num, st in enumerate(stim):
        kinds = ('DualDict', 'other') if tier != 'thorough' and num % 7 else KINDS
        for kind in kinds:
            ops = []
            for op in st['h']:
                op = dict(op, d=1)
                if op['o'] == 'assignmap':
                    op['v'] = MAPS[op['v']]
                elif op['o'] == 'set' and kind in ('other', 'mention') and op['v'] == '!':
                    op['v'] = '=z'        # flags can be read but not set there
                elif op['o'] == 'assign' and kind in ('other', 'mention'):
                    op['v'] = '' if op['v'] == '_' else op['v'].translate(other)
                ops.append(op)
            out.append({'kind': kind, 'ops': ops + FINAL})
    return out


NAMES = ['Case', 'case', 'Number', 'Number[psor]', 'PronType', 'Abbr', 'SpaceAfter', 'Gloss', 'LTranslit', 'x', 'X', 'Zz', 'Entity', 'nptype', 'Bridge']
VALUES = ['=Nom', '=Sing,Plur', '=No', '=1', '=a=b', '=:', '=čau', '=0', '=False', '=(e1-x-1)', '!', '==', '=x y']
OVALUES = ['=np', '=a,b', '=,', '=x:y', '=1', '=:', '=čau', '=p%2Cq']


def random_cases(tier, seed, stim):
    rng = random.Random(str(seed))
    out = []
    for num in range(30000 if tier == 'thorough' else 2800):
        kind = KINDS[num % len(KINDS)]
        is_other = kind in ('other', 'mention')
        values = OVALUES if is_other else VALUES
        sep, eq = (',', ':') if is_other else ('|', '=')
        names = rng.sample(NAMES, rng.choice((2, 3, 5)))

        def pairs(escaped=False):
            chosen = rng.sample(names, rng.randint(0, len(names)))
            return [[n, rng.choice([v for v in values if not (escaped and sep in v)])] for n in chosen]

        def text():
            items = pairs(True)
            rng.shuffle(items)
            if rng.random() < .3 and items:
                items.append([rng.choice(names), rng.choice([v for v in values if sep not in v])])
            if is_other and rng.random() < .2:
                items.append(['flag', '!'])
            return sep.join(n if v == '!' else n + eq + v[1:] for n, v in items)
        ops = []
        for _ in range(rng.randint(3, 14)):
            d = rng.choice((1, 1, 2))
            o = rng.choice(['set'] * 6 + ['unset', 'del', 'get', 'get', 'contains', 'len', 'items', 'text', 'text', 'assign',
                                          'assign', 'assignmap', 'assignfrom', 'copy', 'update', 'pop', 'eq', 'clear', 'assignbad', 'split'])
            op = {'o': o, 'd': d, 'k': rng.choice(names), 'v': ''}
            if o == 'set':
                op['v'] = rng.choice(values)
            elif o == 'unset':
                op.update(o='set', v='=')
                if rng.random() < .5:
                    op['none'] = True
            elif o == 'get' and rng.random() < .4:
                op['attrs'] = True
            elif o == 'assign':
                op['v'] = text()
                if op['v'] == '':
                    op['none'] = rng.random() < .5
                elif rng.random() < .1 and not is_other:
                    op['v'] = '_'
            elif o == 'assignmap':
                op['v'] = pairs(True)
            elif o == 'update':
                op['v'] = pairs()
            elif o == 'copy' and kind not in ('DualDict', 'Feats', 'other'):
                continue
            elif o == 'split' and kind not in ('feats', 'misc'):
                continue
            ops.append(op)
        out.append({'kind': kind, 'ops': ops + FINAL})
    return out


def run_rel(case, emit):
    from udapi.core.document import Document
    node = Document().create_bundle().create_tree().create_child(form='x', deprel='_')
    out = []
    for kind, value in case['ops']:
        op = {'o': kind, 'v': value, 'x': '', 'r': []}
        try:
            setattr(node, kind, None if value == '' and case['none'] else value)
            op['r'] = [node.deprel, node.udeprel, node.sdeprel]
        except Exception as error:  # pylint: disable=broad-except
            op['x'] = type(error).__name__
        out.append(op)
    emit({'k': 'hist', 'op': 'rel', 'ops': out})


def rel_cases(tier, seed, stim):
    rng = random.Random('rel%s' % seed)
    out = []
    for num in range(4000 if tier == 'thorough' else 500):
        ops = []
        for _ in range(rng.randint(2, 10)):
            kind = rng.choice(('deprel', 'udeprel', 'sdeprel', 'sdeprel'))
            value = rng.choice({'deprel': ['nsubj', 'acl:relcl', 'nmod:poss:x', 'nmod:v:acc:1', 'conj', '_'],
                                'udeprel': ['obl', 'acl', 'conj'], 'sdeprel': ['', 'x', 'a:b', 'relcl', 'zá']}[kind])
            ops.append([kind, value])
        out.append({'ops': ops, 'none': num % 2 == 0})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Refines RoundTrip EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
PARTS = [
    Part('dict-all', 'Trace_DualMap', run_dict, exhaustive_cases, mc=[dict(module='MC_DualMap', cfg=CFG % 3, thorough_cfg=CFG % 4)]),
    Part('dict-hist', 'Trace_DualMap', run_dict, random_cases),
    Part('rel', 'Trace_DualMap', run_rel, rel_cases),
]
