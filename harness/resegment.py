"""Splitting, joining, merging and dividing sentences (specification: Resegment)."""
import random

from tlv.core import Part


# ------------------------------------------------------------------------------- real documents
def fill(root, sent, tokens, keys):
    words = {}
    for w in sent['w']:
        node = root.create_child(form=w['f'], deprel=w['d'])
        if not w['sp']:
            node.misc['SpaceAfter'] = 'No'
        if w['m']:
            node.misc['Cut'] = w['m']
        words[w['k']] = node
        keys[node] = w['k']
    for w in sent['w']:
        if w['h']:
            words[w['h']].parent  # pylint: disable=pointless-statement
            words[w['k']].parent = words[w['h']]
    for num in sorted({w['t'] for w in sent['w']} - {0}):
        mwt = root.create_multiword_token([words[w['k']] for w in sent['w'] if w['t'] == num], form=tokens[num - 1]['f'])
        if not tokens[num - 1]['sp']:
            mwt.misc['SpaceAfter'] = 'No'
        keys[mwt] = num
    if sent['tx']:
        root.text = sent['tx']


def build(d, keys, zone=''):
    from udapi.core.document import Document
    doc = Document()
    for sent in d['s']:
        bundle = doc.create_bundle()
        bundle.bundle_id = sent['id']
        fill(bundle.create_tree(zone), sent, d['tk'], keys)
    return doc


def view_words(root, keys):
    out = []
    for node in root.descendants:
        mwt = node.multiword_token
        out.append({'k': keys[node], 'h': 0 if node.parent is root else keys[node.parent], 'd': node.deprel, 'f': node.form,
                    'sp': node.misc['SpaceAfter'] != 'No', 't': keys.get(mwt, -1) if mwt else 0, 'm': node.misc['Cut']})
    return out


def view(doc, keys, zone=''):
    out = []
    for bundle in doc.bundles:
        root = bundle.get_tree(zone)
        good = bundle.document is doc and root.bundle is bundle and root.document is doc
        out.append({'id': bundle.bundle_id, 'n': getattr(bundle, 'number', -1), 'dk': good,
                    'tx': root.text if root.text is not None else '', 'w': view_words(root, keys)})
    return out


def view_tokens(doc, d, keys):
    out = [{'f': '', 'sp': True} for _ in d['tk']]
    for root in doc.trees:
        for mwt in root.multiword_tokens:
            if mwt in keys:
                out[keys[mwt] - 1] = {'f': mwt.form, 'sp': mwt.misc['SpaceAfter'] != 'No'}
    return out


def failed(error):
    return '%s: %s' % (type(error).__name__, error)


# -------------------------------------------------------------------------------------- the blocks
def run_words(case, emit):
    from udapi.block.util.splitsentence import SplitSentence
    from udapi.block.util.joinsentence import JoinSentence
    from udapi.block.segment.merge import Merge
    from udapi.block.util.split import Split
    from udapi.core.document import Document
    d, op = case['d'], case['op']
    keys = {}
    rec = dict(case, k='hist', x='', after=[], tk=[])
    doc = build(d, keys)
    try:
        if op == 'splitid':
            SplitSentence(sent_id=number(case['id']), word_id=case['p']).run(doc)
        elif op == 'splitmarked':
            SplitSentence(misc_name='Cut', misc_value=number(case['v']) or None).run(doc)
        elif op == 'joinid':
            JoinSentence(sent_id=number(case['id'])).run(doc)
        elif op == 'joinmarked':
            JoinSentence(misc_name='Cut', misc_value=number(case['v']) or None).run(doc)
        elif op == 'merge':
            Merge().run(doc)
        elif op == 'split':
            block = Split(bundles_per_doc=case['n']) if case['n'] else Split(parts=case['parts'])
            rec['docs'] = []
            for num in range(len(d['s']) + 2):
                if num:
                    doc = Document()
                block.apply_on_document(doc)
                rec['docs'].append(view(doc, keys))
                if block.finished:
                    break
        if op != 'split':
            rec['after'] = view(doc, keys)
            rec['tk'] = view_tokens(doc, d, keys)
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = failed(error)
    emit(rec)


def number(value):
    """Digits come as numbers from a command line."""
    return int(value) if value.isdigit() else value


def words_of(rng, count, first, tokens, opts):
    """A sentence of `count` words with keys from `first`."""
    words = [{'k': first + i, 'h': 0, 'd': rng.choice(['dep', 'obj', 'root', 'punct']), 'f': rng.choice(opts['forms']), 'sp': rng.random() < .7, 't': 0, 'm': ''}
             for i in range(count)]
    order = list(words)
    rng.shuffle(order)
    for i, w in enumerate(order):
        if i and rng.random() < .9:
            w['h'] = rng.choice(order[:i])['k']
        if w['h'] == 0:
            w['d'] = rng.choice(['root', 'root', 'dep'])
        if rng.random() < opts['mark']:
            w['m'] = rng.choice(['x', 'x', 'y', '1'])
    i = 0
    while i < count - 1:
        size = rng.choice((1, 1, 1, 2, 3))
        if size > 1 and i + size <= count and rng.random() < opts['mwt']:
            tokens.append({'f': rng.choice(opts['forms']), 'sp': rng.random() < .7})
            for w in words[i:i + size]:
                w['t'], w['sp'] = len(tokens), True
        i += size
    return words


def random_doc(rng, mark=.15, ids=None):
    forms = ['a', 'be', 'Č', ';', 'd;', '.', 'x y', 'ž;']
    d = {'s': [], 'tk': []}
    key = 1
    for num in range(1, rng.choice((1, 2, 3, 4, 6)) + 1):
        count = rng.choice((1, 2, 3, 4, 6, 9))
        d['s'].append({'id': (ids or 's%d') % num, 'tx': rng.choice(['', 'old text']), 'w': words_of(rng, count, key, d['tk'], {'forms': forms, 'mark': mark, 'mwt': .5})})
        key += count
    return d


def cuts_token(sent, pos):
    return sent['w'][pos - 1]['t'] and pos > 1 and sent['w'][pos - 2]['t'] == sent['w'][pos - 1]['t']


def word_cases(rng, d, every):
    """Operations on a document (a token is never cut)."""
    ids = [s['id'] for s in d['s']]
    out = []
    for num, sent in enumerate(d['s']):
        if sent['id'] in ids[:num]:
            continue  # the first sentence of the name counts
        out += [{'op': 'splitid', 'd': d, 'id': sent['id'], 'p': p} for p in range(2, len(sent['w']) + 1) if not cuts_token(sent, p)]
    out += [{'op': 'joinid', 'd': d, 'id': i} for i in sorted(set(ids[1:]) - {ids[0]})]
    for val in ('', 'x', 'y', '1'):
        if not any(cuts_token(s, p) for s in d['s'] for p in range(2, len(s['w']) + 1) if s['w'][p - 1]['m'] and val in ('', s['w'][p - 1]['m'])):
            out.append({'op': 'splitmarked', 'd': d, 'v': val})
        if not any(w['m'] and val in ('', w['m']) for w in d['s'][0]['w']):
            out.append({'op': 'joinmarked', 'd': d, 'v': val})
    out.append({'op': 'merge', 'd': d})
    out += [{'op': 'split', 'd': d, 'n': n, 'parts': 0} for n in (1, 2, 3)] + [{'op': 'split', 'd': d, 'n': 0, 'parts': n} for n in (1, 2, 3, 5)]
    out += [{'op': op, 'd': d, 'id': 'none', 'p': 1} for op in ('splitid', 'joinid')]
    return out if every else [rng.choice(out) for _ in range(3)]


def words_all(tier, seed, stim):
    rng = random.Random('reseg%s' % seed)
    out = []
    small = [s['d'] for s in stim if 'd' in s]
    for d in small if tier == 'thorough' else rng.sample(small, min(len(small), 700)):
        out += word_cases(rng, d, tier == 'thorough')
    for _ in range(6000 if tier == 'thorough' else 700):
        d = random_doc(rng, mark=rng.choice((.02, .1, .3)), ids=rng.choice(['s%d', '%d', 'a-s%d', 's%.0s']))
        cases = word_cases(rng, d, True)
        out += rng.sample(cases, min(len(cases), 6))
    out.append({'op': 'merge', 'd': {'s': [], 'tk': []}})
    out.append({'op': 'split', 'd': {'s': [], 'tk': []}, 'n': 2, 'parts': 0})
    return out


# ------------------------------------------------------------------------------------- segmented text
def run_segment(case, emit):
    from udapi.core.document import Document
    from udapi.block.segment.simple import Simple
    rec = dict(case, k='hist', op='segment', x='', after=[])
    try:
        doc = Document()
        for num in range(3):
            bundle = doc.create_bundle()
            bundle.bundle_id = 'i' if num == 1 else 'other%d' % num
            bundle.create_tree().text = case['text'] if num == 1 else 'x'
        Simple(keep_spaces=case['keep']).run(doc)
        seen = view(doc, {})
        if [x['tx'] for x in (seen[0], seen[-1])] != ['x', 'x'] or [x['n'] for x in seen] != list(range(1, len(seen) + 1)):
            rec['x'] = 'the other sentences changed'
        rec['after'] = [dict(x, n=x['n'] - 1) for x in seen[1:-1]]
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = failed(error)
    emit(rec)


def segment_all(tier, seed, stim):
    rng = random.Random('segment%s' % seed)
    texts = [s['text'] for s in stim if 'text' in s]
    pieces = ['A', 'b', 'Č', 'č', '.', '.', '!', '?', '"', '“', '”', '»', '›', ')', '„', '«', '¿', '¡', '‹', '(', '1', 'e.g.', 'např.', '...', 'Xe', ',']
    for _ in range(20000 if tier == 'thorough' else 2500):
        texts.append(' '.join(''.join(rng.choice(pieces) for _p in range(rng.choice((0, 1, 1, 2, 3, 5)))) for _t in range(rng.choice((1, 2, 2, 3, 5)))))
    return [{'text': t, 'keep': rng.random() < .5} for t in texts if t]


# ------------------------------------------------------------------------- division of another zone
def run_gold(case, emit):
    from udapi.core.document import Document
    from udapi.block.util.resegmentgold import ResegmentGold
    rec = dict(case, k='hist', op='gold', x='', after=[], gsame=True)
    d, g = case['d'], case['g']
    doc, keys, gkeys = Document(), {}, {}
    try:
        for num in range(max(len(d['s']), len(g['s']))):
            bundle = doc.create_bundle()
            for which in ('gold', 'pred') if case['first'] else ('pred', 'gold'):
                source = g if which == 'gold' else d
                if num < len(source['s']):
                    fill(bundle.create_tree(which), source['s'][num], source['tk'], gkeys if which == 'gold' else keys)
        before = [view_words(t, gkeys) for t in doc.trees if t.zone == 'gold']
        ResegmentGold(gold_zone='gold').run(doc)
        rec['after'] = view(doc, keys, 'pred')
        rec['gsame'] = before == [view_words(b.get_tree('gold'), gkeys) for b in doc.bundles] and all(len(b.trees) == 2 for b in doc.bundles)
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = failed(error)
    emit(rec)


def cut(rng, text, forced, density):
    """Positions where tokens end, all of `forced` among them."""
    return sorted({p for p in range(1, len(text)) if rng.random() < density} | set(forced) | {len(text)})


def gold_all(tier, seed, stim):
    rng = random.Random('gold%s' % seed)
    out = []
    for _ in range(8000 if tier == 'thorough' else 1200):
        text = ''.join(rng.choice('abcdAč.') for _c in range(rng.choice((2, 4, 6, 10, 16))))
        ends = cut(rng, text, [], rng.choice((.1, .2, .4)))          # ends of gold sentences
        case = {'first': rng.random() < .5}
        gtokens = cut(rng, text, ends, .4)
        ptokens = cut(rng, text, ends, rng.choice((.3, .5, .8)))
        pends = sorted(set(p for p in ptokens if rng.random() < .3 or (p in ends and rng.random() < .3)) | {len(text)})
        for name, tokens, stops in (('g', gtokens, ends), ('d', ptokens, pends)):
            d = {'s': [], 'tk': []}
            key, start, left = 1, 0, 0
            for stop in stops:
                mine = [t for t in tokens if left < t <= stop]
                left = stop
                words = []
                for t in mine:
                    form = text[start:t]
                    if len(form) > 1 and rng.random() < .2:
                        form = form[0] + rng.choice((' ', '\u00a0')) + form[1:]
                    start = t
                    count = rng.choice((1, 1, 1, 1, 2, 3))
                    if count > 1:
                        d['tk'].append({'f': form, 'sp': True})
                    for _w in range(count):
                        words.append({'k': key, 'h': 0, 'd': rng.choice(['dep', 'case', 'aux:pass', 'obj']), 'f': 'w' if count > 1 else form, 'sp': True, 't': len(d['tk']) if count > 1 else 0, 'm': ''})
                        key += 1
                order = list(words)
                rng.shuffle(order)
                for i, w in enumerate(order):
                    if i:
                        w['h'] = rng.choice(order[:i])['k']
                d['s'].append({'id': 's', 'tx': '', 'w': words})
            case[name] = d
        out.append(case)
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Conserve Undo ChunksInv SegInv EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
MC = [dict(module='MC_Resegment', cfg=CFG % 3, thorough_cfg=CFG % 4)]
PARTS = [
    Part('words', 'Trace_Resegment', run_words, words_all, mc=MC),
    Part('segment', 'Trace_Resegment', run_segment, segment_all, mc=MC),
    Part('gold', 'Trace_Resegment', run_gold, gold_all),
]
