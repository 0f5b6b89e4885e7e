"""Blocks which join, split, add or remove words (specification: WordEdits)."""
import random

import resegment
from text import record, sentence, spaced, token_forms
from tlv.core import Part

LETTERS = ['a', 'be', 'Č', 'n', 'xy', 'Xy', 'XY', 'pqr', 'zz', '.', ',', '?!', '12']
UPOS = ['PROPN', 'ADP', 'DET', 'NOUN', 'X', 'PART', 'NUM']


def make(sent, mark):
    """A tree with the sentence; the marks are values of the MISC attribute `mark`."""
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    keys = {}
    resegment.fill(root, sent, sent['tk'], keys)
    for node in root.descendants:
        value = node.misc['Cut']
        del node.misc['Cut']
        if value:
            node.misc[mark] = value
    return root, keys


def view(root, mark):
    """The sentence as it is; tokens are numbered by their order."""
    numbers, tokens, words = {}, [], []
    for node in root.descendants:
        mwt = node.multiword_token
        if mwt is not None and mwt not in numbers:
            numbers[mwt] = len(numbers) + 1
            tokens.append({'f': mwt.form, 'sp': mwt.misc['SpaceAfter'] != 'No'})
        words.append((node, numbers[mwt] if mwt is not None else 0))
    if set(numbers) != set(root.multiword_tokens) or any(node not in mwt.words for mwt in numbers for node, num in words if num == numbers[mwt]):
        raise ValueError('multiword tokens disagree with words')
    return words, tokens


def shown(root, keys, mark):
    words, tokens = view(root, mark)
    return {'w': [{'k': keys.get(node, -1), 'h': 0 if node.parent is root else keys.get(node.parent, -1), 'd': node.deprel, 'f': node.form,
                   'sp': node.misc['SpaceAfter'] != 'No', 't': num, 'm': node.misc[mark]} for node, num in words],
            'tk': tokens, 'tx': root.text if root.text is not None else ''}


NOTHING = {'w': [], 'tk': [], 'tx': ''}


def edit(op, block, mark, extra=None):
    """A part function: run the block made by block(case) on the sentence of the case."""
    @record(op)
    def run(case, rec):
        rec['after'] = dict(NOTHING)
        root, keys = make(case['s'], mark)
        if extra:
            extra(case, rec, root, True)
        block(case).run(root.document)
        rec['after'] = shown(root, keys, mark)
        if extra:
            extra(case, rec, root, False)
    return run


def sentences(name, quick, forms, opts=None):
    """All small sentences of the specification and random ones."""
    def cases(tier, seed, stim):
        rng = random.Random('%s%s' % (name, seed))
        small = [{'w': s['w'], 'tk': s['tk'], 'tx': ''} for s in stim]
        few = 6 * quick if tier == 'thorough' else quick // 2
        small = rng.sample(small, min(len(small), few))
        out = []
        for s in small + [None] * (8 * quick if tier == 'thorough' else quick):
            if s is None:
                s = sentence(rng, forms=forms(rng))
                for w in s['w']:
                    w['m'] = rng.choice(['', '', '', 'v', '1', 'other']) if name != 'addmwt' or rng.random() < .2 else ''
                    if name in ('join', 'asmwt') and not w['t'] and rng.random() < .6:
                        w['sp'] = False
                for t in s['tk']:
                    if name == 'fixspace' and rng.random() < .6:
                        num = s['tk'].index(t) + 1
                        t['f'] = ' '.join(w['f'] for w in s['w'] if w['t'] == num)
            case = {'s': s}
            if opts:
                opts(rng, case)
            out.append(case)
        return out
    return cases


def simple_forms(_rng):
    return LETTERS


def joined_forms(_rng):
    return ['a_b', 'c_d_e', '_', 'be', 'Č', 'x-y', '.']


def make_removemwt(_case):
    from udapi.block.ud.removemwt import RemoveMwt
    return RemoveMwt()


def make_join(case):
    from udapi.block.ud.jointoken import JoinToken
    return JoinToken(misc_name='Join', misc_value=resegment.number(case['v']) or None)


def join_opts(rng, case):
    case['v'] = rng.choice(['', 'v', '1'])


def make_asmwt(case):
    from udapi.block.ud.joinasmwt import JoinAsMwt
    return JoinAsMwt() if case['revert'] else JoinAsMwt(revert_orig_form=0)


def asmwt_opts(rng, case):
    case['revert'] = rng.random() < .7


def make_fixspace(_case):
    from udapi.block.ud.fixmwtspace import FixMwtSpace
    return FixMwtSpace()


def make_underscores(case):
    from udapi.block.ud.splitunderscoretokens import SplitUnderscoreTokens
    o = case['o']
    kwargs = {key: val for key, val in (('deprel', o['deprel']), ('default_deprel', o['default']), ('lemma', o['lemma'])) if val}
    return SplitUnderscoreTokens(**kwargs)


def underscores_opts(rng, case):
    # words of multiword tokens are not split
    for w in case['s']['w']:
        if w['t']:
            w['f'] = w['f'].replace('_', '-')
    case['o'] = {'deprel': rng.choice(['', '', 'compound']), 'default': rng.choice(['flat', 'goeswith']), 'lemma': rng.choice(['split', 'form']),
                 'u': [rng.choice(UPOS) for _w in case['s']['w']],
                 'l': [rng.choice([w['f'], w['f'], w['f'].upper(), 'a_b', 'l']) for w in case['s']['w']]}


def underscores_extra(case, rec, root, before):
    if before:
        rec['lemmas'], rec['upos'] = [], []
        for node, upos, lemma in zip(root.descendants, case['o']['u'], case['o']['l']):
            node.upos, node.lemma = upos, lemma
    else:
        rec['lemmas'], rec['upos'] = [n.lemma for n in root.descendants], [n.upos for n in root.descendants]


def make_addmwt(_case):
    from udapi.block.ud.addmwt import AddMwt

    class Splitter(AddMwt):
        """Splits the words which the specification splits."""

        def multiword_analysis(self, node):
            if node.form.lower() == 'xy' and node.form[1:] in ('y', 'Y') and node.form != 'xY':
                return {'form': 'x y', 'main': 0, 'deprel': '* new', 'shape': 'siblings'}
            return {'pqr': {'form': 'p q r', 'main': 1, 'deprel': 'aux * new', 'shape': 'subtree'},
                    'zz': {'form': 'z z', 'main': 1, 'deprel': '* new'}}.get(node.form)
    return Splitter()


# ------------------------------------------------------------------------------ ud.ComplyWithText
def make_comply(case):
    from udapi.block.ud.complywithtext import ComplyWithText
    o = case['o']
    return ComplyWithText(fix_text=o['fix'], prefer_mwt=o['mwt'], allow_goeswith=o['goes'], allow_add_punct=o['add'], allow_delete_punct=o['del'])


def comply_extra(case, rec, root, before):
    if not before:
        rec['after']['cf'] = [n.misc['CorrectForm'] for n in root.descendants]


def distinct(rng):
    """A sentence whose tokens have no common characters."""
    chars = list('abcdefghijklmnopqrstuvwxyzčéß.,!?0123')
    rng.shuffle(chars)
    s = sentence(rng, rng.choice((2, 3, 5)))
    for w in s['w']:
        if not w['t']:
            w['f'] = ''.join(chars.pop() for _c in range(rng.choice((1, 2, 3))))
    if rng.random() < .5:
        for w, c in zip(s['w'][-1:-3:-1], '„¡'):
            w['f'] = c if not w['t'] else w['f']
    for t in s['tk']:
        t['f'] = ''.join(chars.pop() for _c in range(rng.choice((1, 2, 4))))
    return s


def clear_text(rng, s):
    """The text of the sentence with one clear change."""
    seen, q = 0, []
    for w in s['w']:
        if not w['t']:
            q.append([w['f'], w['sp']])
        elif w['t'] != seen:
            q.append([s['tk'][w['t'] - 1]['f'], s['tk'][w['t'] - 1]['sp']])
        seen = w['t']
    how, i = rng.choice(['typo', 'cut', 'append', 'append', 'drop']), rng.randrange(len(q))
    if how == 'typo':
        q[i][0] = rng.choice(['Q', 'QW', 'QWER'])
    elif how == 'cut':
        q[i][0] = ' '.join(q[i][0]) if rng.random() < .5 else q[i][0][:1] + ' ' + q[i][0][1:]
    elif how == 'drop':
        del q[rng.choice((-1, -2)):]
    out = ''.join(f + (' ' if sp else '') for f, sp in q).rstrip()
    if how == 'append':
        out += ''.join(rng.choice(['', ' ']) + c for c in rng.sample('()"-;:', rng.choice((1, 2, 3))))
    return out


def comply_cases(tier, seed, _stim):
    rng = random.Random('comply%s' % seed)
    out = []
    for _ in range(12000 if tier == 'thorough' else 1500):
        plain = rng.random() < .5
        if plain:
            s = distinct(rng)
        else:
            s = sentence(rng, forms=LETTERS + ['word', 'slovo', 'to', 'ne', 'mother-in-law', '"', "''", '-', '1 000'])
        for w in s['w']:
            w['m'] = ''
        q = token_forms(s)
        kind = rng.choice(['spaces', 'spaces', 'edits', 'edits', 'other'])
        if plain and rng.random() < .7:
            s['tx'] = clear_text(rng, s)
            kind = ''
        if kind == 'edits':
            for _e in range(rng.choice((1, 1, 2))):
                i = rng.randrange(len(q))
                how = rng.choice(['drop', 'add', 'change', 'cut', 'glue'])
                if how == 'drop':
                    q[i] = ''
                elif how == 'add':
                    q[i] += rng.choice(['.', ' ,', ' (', '!', ' new'])
                elif how == 'change':
                    q[i] = rng.choice(LETTERS + ['wrod', 'solvo', '„', 'mother in law'])
                elif how == 'cut' and len(q[i]) > 1:
                    c = rng.randrange(1, len(q[i]))
                    q[i] = q[i][:c] + ' ' + q[i][c:]
                elif i:
                    q[i - 1] = q[i - 1][:-1]
        if kind:
            s['tx'] = spaced(rng, [f for f in q if f], ['', ' ', ' ', '  ', '\u00a0']) if kind != 'other' else rng.choice(['a', 'Zcela jiný text.', '.', 'a be'])
        if rng.random() < .7:
            s['tx'] = s['tx'].strip()
        if not s['tx'].strip():
            s['tx'] = 'a'
        o = {'fix': rng.random() < .8, 'mwt': rng.random() < .6, 'goes': rng.random() < .7, 'add': rng.random() < .7, 'del': rng.random() < .7}
        out.append({'s': s, 'o': o})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS RemoveInv JoinInv AsMwtInv FixInv SplitInv AddInv EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
MC = [dict(module='MC_WordEdits', cfg=CFG % 2, thorough_cfg=CFG % 3)]


def part(name, block, mark, quick, forms=simple_forms, opts=None, extra=None):
    return Part(name, 'Trace_WordEdits', edit(name, block, mark, extra), sentences(name, quick, forms, opts), mc=MC)


PARTS = [
    part('removemwt', make_removemwt, 'Cut', 1500),
    part('join', make_join, 'Join', 2000, opts=join_opts),
    part('asmwt', make_asmwt, 'OrigForm', 2000, opts=asmwt_opts),
    part('fixspace', make_fixspace, 'Cut', 1500),
    part('underscores', make_underscores, 'Cut', 1500, joined_forms, underscores_opts, underscores_extra),
    part('addmwt', make_addmwt, 'Cut', 1500),
    Part('comply', 'Trace_WordEdits', edit('comply', make_comply, 'Cut', comply_extra), comply_cases),
]
