"""Drawings of trees (specification: Draw)."""
import contextlib
import html
import io
import os
import random
import re

from selecting import heads
from text import record
from tlv.core import Part

GLYPHS = dict(zip('─│╪╭╰├┡┢╼┮┶┾', '-|+FLKUDOTJB'))
MARKS = ['ToDo', 'ToDoOrigText', 'Bug', 'Mark']


def build(case):
    from udapi.core.document import Document
    doc = Document()
    for k, bundle in enumerate(case['d'], 1):
        b = doc.create_bundle()
        b.bundle_id = 's%d' % k
        for t in bundle:
            root = b.create_tree(t['zone'] or None)
            nodes = [root] + [root.create_child() for _ in t['w']]
            for n, w in zip(nodes[1:], t['w']):
                n.parent = nodes[w['h']]
            for e in t['e']:
                if e['k']:
                    n = nodes[e['k']].create_empty_child('dep')
                else:
                    n = root.create_empty_child()
                    n.ord = '0.%d' % len(root.empty_nodes)
                put(n, e)
            for n, w in zip(nodes[1:], t['w']):
                put(n, w)
                n.deprel = w['deprel'] or None
            if t['text']:
                root.text = t['text']
            if t['comment']:
                root.comment = '\n'.join(t['comment'])
    for line in case['meta']:
        k, v = line.split(' = ')
        doc.meta[k] = v
    doc.meta['_hidden'] = '1'
    return doc


def put(n, w):
    n.form, n.lemma, n.upos = w['form'] or None, w['lemma'] or None, w['upos'] or None
    if w['gloss']:
        n.misc['Gloss'] = w['gloss']
    if w['misc']:
        k, v = w['misc'].split('=')
        n.misc[k] = v


@record('draw')
def run_draw(case, rec):
    from udapi.block.write.textmodetrees import TextModeTrees
    from udapi.block.write.textmodetreeshtml import TextModeTreesHtml
    rec['out'], rec['lit'] = [], []
    o = case['o']
    doc = build(case)
    options = dict(print_sent_id=o['id'], print_text=o['text'], add_empty_line=o['line'], indent=o['indent'], minimize_cross=o['cross'], attributes=','.join(o['attrs']), print_undef_as=o['undef'],
                   print_doc_meta=o['meta'], print_comments=o['comments'], print_empty=o['empty'], marked_only=o['only'], hints=o['hints'], layout=o['layout'])
    if o['marks'] != MARKS:
        options['mark'] = '(' + '|'.join(o['marks']) + ')' if o['marks'] else ''
    if o['zones']:
        options['zones'] = ','.join(o['zones'])
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        try:
            if o['mode'] == 'html':
                TextModeTreesHtml(zones_in_rows=o['inrows'], whole_bundle=o['whole'], **options).run(doc)
            elif case['x0']:
                doc.bundles[0].trees[0].descendants[case['x0'] - 1].draw(color=0, **options)
            elif o['mode'] == 'color':
                TextModeTrees(color=1, **options).run(doc)
            elif case['via'] == 'draw':
                doc.draw(color=0, **options)
            else:
                TextModeTrees(color=0, **options).run(doc)
        finally:
            os.environ.pop('FORCE_COLOR', None)
    out = text.getvalue()
    if o['mode'] == 'html':
        out = out[out.index('<pre>') + 6:out.index('</pre>')]
        if o['meta']:
            out = out.replace('_hidden = 1\n', '')
        for tag, name in (('<table><tr>', '[row'), ('</tr></table>', 'row]'), ('<td>', '[cell'), ('</td>', 'cell]')):
            out = out.replace(tag, name)
    lines = out.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    for line in lines:
        rec['lit'].append('<mark>' in line if o['mode'] == 'html' else '\x1b[7m' in line)
        if o['mode'] == 'html':
            line = html.unescape(re.sub(r'</?(mark|span)[^>]*>', '', line))
        else:
            line = re.sub(r'\x1b\[\d+m', '', line)
        if not line.startswith('#'):
            line = ''.join(GLYPHS.get(c, c) for c in line)
        rec['out'].append(line.rstrip())


def word(rng, h):
    return {'h': h, 'form': rng.choice(('a', 'bb', 'ccc', 'x<y', 'x y')), 'lemma': rng.choice(('', 'lem')), 'upos': rng.choice(('n', 'verb')), 'deprel': rng.choice(('', 'dep', 'obj:z')), 'gloss': rng.choice(('', '', 'g', 'gg')),
            'misc': rng.choice(('',) * 8 + ('Mark=1', 'Bug=2', 'ToDo=3', 'No=1', 'NoMark=2', 'My=1', 'Markx=1'))}


def tree(rng, hs, empties, zone, k):
    comment = rng.choice(([], [], [' c = 1'], [' Mark = 1'], [' x', ' Bug = a', ' y'], [' No Mark = 1']))
    return {'zone': zone, 'id': 's%d' % k + ('/' + zone if zone else ''), 'text': rng.choice(('', '', 'some text')), 'comment': comment, 'w': [word(rng, h) for h in hs],
            'e': [dict({k: v for k, v in word(rng, 0).items() if k not in ('h', 'deprel')}, k=e) for e in sorted(empties)]}


def options(rng):
    mode = rng.choice(('text', 'text', 'text', 'color', 'html'))
    return {'mode': mode, 'layout': rng.choice(('classic', 'classic', 'compact', 'align-words', 'align')), 'hints': rng.random() < .6, 'indent': rng.choice((1, 1, 0, 2, 3)), 'cross': rng.random() < .6,
            'attrs': rng.choice((['form', 'upos', 'deprel'], ['form'], ['ord', 'form'], ['form', 'misc[Gloss]', 'lemma'], ['lemma', 'deprel', 'ord'])), 'undef': rng.choice(('_', '_', '0', 'none')),
            'id': rng.random() < .6, 'text': rng.random() < .6, 'line': rng.random() < .7, 'meta': rng.random() < .5, 'comments': rng.random() < .5, 'empty': rng.random() < .7,
            'marks': rng.choice((MARKS, MARKS, MARKS, ['My'], [])), 'only': rng.random() < .2, 'zones': rng.choice(([], [], [], ['en'], ['cs'])), 'inrows': rng.random() < .6, 'whole': rng.random() < .5}


def draw_cases(tier, seed, stim):
    rng = random.Random('draw%s' % seed)
    out = []
    pool = [s['I'] for s in stim]
    for I in rng.sample(pool, min(len(pool), 20000 if tier == 'thorough' else 1500)):
        # lines of the drawing: words and empty nodes
        line = {1: 0}
        hs, empties = [], []
        for i, x in enumerate(I, 2):
            if x['e']:
                empties.append(len(hs))
            else:
                hs.append(x['h'])
                line[i] = len(hs)
        o = dict(options(rng), zones=[], only=False)
        out.append({'d': [[tree(rng, [line[h] for h in hs], empties, '', 1)]], 'o': o})
    for _ in range(12000 if tier == 'thorough' else 1500):
        d = []
        for k in range(1, rng.choice((1, 1, 2, 3)) + 1):
            zones = rng.choice(([''], [''], ['en'], ['en', 'cs'], ['cs', 'en', 'de']))
            d.append([])
            for z in zones:
                n = rng.choice((0, 1, 2, 4, 6, 8, 10))
                d[-1].append(tree(rng, [h for _k, h in sorted(heads(rng, n).items())], [rng.randrange(n + 1) for _e in range(rng.choice((0, 0, 1, 2)))], z, k))
        out.append({'d': d, 'o': options(rng)})
    for c in out:
        c['x0'], c['via'] = 0, rng.choice(('draw', 'run'))
        c['meta'] = sorted(rng.sample(['a = 1', 'B = x', 'zz = y'], rng.choice((0, 1, 2, 3))))
        n = len(c['d'][0][0]['w'])
        if c['o']['mode'] == 'text' and n and rng.random() < .3:
            c['x0'] = rng.randint(1, n)
            c['o'].update(zones=[], only=False)
    return out


CFG = 'CONSTANTS N = %d E = 1 Indent = %s Emit = TRUE\nSPECIFICATION Spec\nINVARIANTS ReadInv OpenInv EmitInv\nCHECK_DEADLOCK FALSE'
PARTS = [
    Part('draw', 'Trace_Draw', run_draw, draw_cases, mc=[dict(module='MC_Draw', cfg=CFG % (5, '{1}'), thorough_cfg=CFG % (6, '{1}'))]),
]
