"""CoNLL-U files: reading, writing, attachments of damaged files (specification: Conllu)."""
import bz2
import contextlib
import gzip
import io
import itertools
import json
import lzma
import os
import random

from tlv.core import Part

WRITE = [{'sid': True, 'text': True, 'empty': True}]


def to_text(lines):
    return ''.join('\t'.join(line) + '\n' for line in lines)


def to_lines(text):
    """The lines of a written file as arrays; the text must end with a newline."""
    if text == '':
        return []
    if not text.endswith('\n'):
        return [['no final newline']]
    return [[] if line == '' else [line] if line[0] == '#' else line.split('\t') for line in text[:-1].split('\n')]


def dumps(value):
    return json.dumps(value, ensure_ascii=False, sort_keys=True)


def mark(value):
    return '' if not value else '!' if value is True else '=' + value


def col(value):
    return '_' if value is None else str(value)


def project(doc):
    """The document as its user sees it."""
    bundles = []
    for bundle in doc.bundles:
        trees = []
        for tree in bundle.trees:
            words = [[col(n.form), col(n.lemma), col(n.upos), col(n.xpos), col(n.feats),
                      str(n.parent.ord), col(n.deprel), col(n.raw_deps), col(n.misc)] for n in tree.descendants]
            empties = [[str(e.ord), col(e.form), col(e.lemma), col(e.upos), col(e.xpos), col(e.feats), col(e.raw_deps), col(e.misc)]
                       for e in tree.empty_nodes]
            tokens = [[m.words[0].ord, m.words[-1].ord, col(m.form), col(m.misc)] for m in tree.multiword_tokens]
            trees.append({'sid': tree.sent_id, 'zone': tree.zone, 'text': '' if tree.text is None else '=' + tree.text,
                          'nd': mark(tree.newdoc), 'np': mark(tree.newpar), 'js': [[k, dumps(v)] for k, v in sorted(tree.json.items())],
                          'w': words, 'e': empties, 'm': tokens})
        bundles.append({'id': bundle.bundle_id, 'trees': trees})
    return {'b': bundles, 'dj': [[k, dumps(v)] for k, v in sorted(doc.json.items())], 'ge': doc.meta.get('global.Entity') or ''}


def write(doc, opts):
    from udapi.block.write.conllu import Conllu
    outs = []
    for num, opt in enumerate(opts):
        out = {'opt': opt, 'x': '', 'lines': []}
        try:
            if num == 0 and opt == WRITE[0]:
                text = doc.to_conllu_string()
            else:
                handle = io.StringIO()
                with contextlib.redirect_stdout(handle):
                    Conllu(print_sent_id=opt['sid'], print_text=opt['text'], print_empty_trees=opt['empty']).apply_on_document(doc)
                text = handle.getvalue()
            out['lines'] = to_lines(text)
        except Exception as error:  # pylint: disable=broad-except
            out['x'] = '%s: %s' % (type(error).__name__, error)
        outs.append(out)
    return outs


OPENERS = {'.gz': gzip.open, '.xz': lzma.open, '.bz2': bz2.open}


def read(lines, mode):
    from udapi.core.document import Document
    from udapi.block.read.conllu import Conllu
    text = to_text(lines)
    if mode == 'string':
        doc = Document()
        doc.from_conllu_string(text)
    elif mode in ('slow', 'handle'):
        docs = Conllu(filehandle=io.StringIO(text), bundles_per_doc=10000 if mode == 'slow' else 0).read_documents()
        if len(docs) != 1:
            raise RuntimeError('%d documents' % len(docs))
        doc = docs[0]
    else:
        ext = mode if mode in OPENERS else ''
        name = os.path.join(os.environ['TLV_SCRATCH'], 'in%d.conllu%s' % (os.getpid(), ext))
        data = text.encode('utf-8')
        if mode == 'bom':
            data = b'\xef\xbb\xbf' + data
        elif mode == 'crlf':
            data = data.replace(b'\n', b'\r\n')
        elif mode == 'nofinal':
            data = data.rstrip(b'\n')
        elif mode == 'blanks':
            data = b'\n\n' + data.replace(b'\n\n', b'\n\n\n\n')
        elif mode == 'comments':
            data = b'# no tree\n\n' + data.replace(b'\n\n', b'\n\n# neither here\n# nor there\n\n')
        with OPENERS.get(mode, open)(name, 'wb') as handle:
            handle.write(data)
        try:
            if ext:
                doc = Document()
                doc.load_conllu(name)
            else:
                doc = Document(name)
        finally:
            os.unlink(name)
    return doc


def run_roundtrip(case, emit):
    lines = case['in']
    for again in (False, True):
        rec = {'k': 'hist', 'op': 'roundtrip', 'in': lines, 'mode': case['mode'], 'x': '', 'doc': {}, 'outs': []}
        try:
            doc = read(lines, case['mode'] if not again else 'string')
            rec['doc'] = project(doc)
        except Exception as error:  # pylint: disable=broad-except
            rec['x'] = '%s: %s' % (type(error).__name__, error)
        if rec['x'] == '':
            rec['outs'] = write(doc, case['opts'] if not again else WRITE)
        emit(rec)
        if rec['x'] or rec['outs'][0]['x'] or not case.get('twice'):
            return
        lines = rec['outs'][0]['lines']


def build(model):
    """The document described by the model, built by API calls."""
    from udapi.core.document import Document
    doc = Document()
    for b in model['bundles']:
        bundle = doc.create_bundle()
        if b['how'] == 'bundle_id':
            bundle.bundle_id = b['id']
        for t in b['trees']:
            zone = t['sid'][1:].split('/', 1)[1] if '/' in t['sid'] else ''
            tree = bundle.create_tree(zone=zone or None)
            if t['text']:
                tree.text = t['text'][1:]
            for attr, value in (('newdoc', t['nd']), ('newpar', t['np'])):
                if value:
                    setattr(tree, attr, True if value == '!' else value[1:])
            for key, value in t['js']:
                tree.json[key] = json.loads(value)
            for comment in t['com']:
                tree.add_comment(comment[2:])
            nodes = [tree]
            for w in t['w']:
                args = dict(zip(('form', 'lemma', 'upos', 'xpos', 'feats'), w[:5]))
                args = {k: v for k, v in args.items() if v != '_' or k == 'form'}
                nodes.append(tree.create_child(deprel=w[6], misc=w[8] if w[8] != '_' else None, **args))
            # attach: heads are a tree, so go from the root down
            todo, done = list(range(1, len(nodes))), {0}
            while todo:
                ready = [k for k in todo if int(t['w'][k - 1][5]) in done]
                for k in ready:
                    nodes[k].parent = nodes[int(t['w'][k - 1][5])]
                    done.add(k)
                    todo.remove(k)
            for e in t['e']:
                major, args = int(e[0].split('.')[0]), dict(form=e[1], lemma=e[2], upos=e[3], xpos=e[4], feats=e[5], misc=e[7])
                if major:
                    empty = nodes[major].create_empty_child('x', **args)
                elif len(e[1]) > 1:
                    empty = nodes[1].create_empty_child('x', after=False, **args)
                else:
                    empty = tree.create_empty_child(**args)
                    empty.ord = e[0]
                empty.raw_deps = e[6]
            for first, last, form, misc in t['m']:
                tree.create_multiword_token(nodes[first:last + 1], form=form, misc=misc)
            for k, w in enumerate(t['w'], 1):
                if w[7] != '_':
                    nodes[k].raw_deps = w[7]
        if b['how'] == 'sent_id':
            bundle.trees[0].sent_id = b['id']
    for key, value in model['dj']:
        doc.json[key] = json.loads(value)
    if model['ge']:
        doc.meta['global.Entity'] = model['ge']
    return doc


def run_build(case, emit):
    rec = {'k': 'hist', 'op': 'build', 'in': case['in'], 'x': '', 'doc': {}, 'outs': []}
    try:
        doc = build(case['in'])
        rec['doc'] = project(doc)
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    if rec['x'] == '':
        rec['outs'] = write(doc, case['opts'])
    emit(rec)
    if rec['x'] == '' and rec['outs'][0]['x'] == '' and rec['outs'][0]['lines']:
        run_roundtrip({'in': rec['outs'][0]['lines'], 'mode': 'string', 'opts': WRITE}, emit)


# ------------------------------------------------------------------------------- random documents
FORMS = ['a', 'b', 'Dům', '1', '.', ',', 'x y', 'p\u2028q', 'n\u00a0n', 'x\x85y', '#', '-', '3-4', '_', '"', '👍', 'do', "n't", 'A=b|c', '0.1']
LEMMAS = ['a', '_', 'být', 'x y', '#', 'l\u2029m', 'b-1']
UPOS = ['NOUN', 'VERB', 'PUNCT', 'X', '_']
XPOS = ['_', 'NN', 'V-B', 'a|b']
FEATS = ['_', 'Case=Nom', 'Case=Gen|Number=Sing', 'Abbr=Yes|Case=Nom', 'Number=Sing|Case=Nom', 'Number[psor]=Plur']
DEPRELS = ['dep', 'nsubj', 'acl:relcl', 'conj', 'nmod:x:y', '_']
MISCS = ['_', '_', '_', 'SpaceAfter=No', 'SpaceAfter=No', 'Gloss=x', 'b=1|SpaceAfter=No', 'SpaceAfter=No|Z=1|a', 'X=1|b=2', 'Entity=(e1-x-1', 'SpaceAfter=Yes',
         'SpaceAfter=No|A=\u2028b', 'SpacesAfter=\\s\\s', 'Flag', 'A==', 'Entity=e1)|SpaceAfter=No', 'Bridge=e1<e2|Entity=(e3)']
TOKMISC = ['_', '_', 'SpaceAfter=No', 'Typo=Yes', 'b=1|A=2', 'B|SpaceAfter=No']
ZONES = ['', '', '', 'en', 'cs', 'en_udpipe', 'x-y_Gold-1', '_2']
COMMENTS = ['# other = 1', '#nospace', '# text_en = hello', '# newdoc_x = 1', '#  two spaces', '# sent_id_old = 5', '# newparagraph', '# speaker: A',
            '# text', '## double', '# sentence = 4', '# č\u2028č\x85č', '# newpar x = 2', '# text-x = 3', '# global.columns = ID FORM', '# a = sent_id = 3',
            '# translit = x\u00a0y', '# json', '# $TEX', '# global = 1']
JSONS = ['1', '"a"', '{"a": [1, 2], "b": null}', '[]', '"č ="', 'true', '-0.5', '" = "', '{}']


def random_tree(rng, zone_id, rich, size):
    n = rng.choice((1, 1, 2, 3, 4, 6, size))
    heads = [0] * (n + 1)
    order = list(range(1, n + 1))
    rng.shuffle(order)
    seen = [0]
    for k in order:
        heads[k] = rng.choice(seen)
        seen.append(k)
    words = []
    for k in range(1, n + 1):
        words.append([rng.choice(FORMS), rng.choice(LEMMAS), rng.choice(UPOS), rng.choice(XPOS), rng.choice(FEATS), str(heads[k]),
                      rng.choice(DEPRELS), '_', rng.choice(MISCS)])
    empties = []
    if rng.random() < .4:
        for k in range(0, n + 1):
            if rng.random() < .25:
                for j in range(1, rng.choice((1, 1, 2, 3, 12)) + 1):
                    empties.append(['%d.%d' % (k, j), rng.choice(FORMS), rng.choice(LEMMAS), rng.choice(UPOS), rng.choice(XPOS), rng.choice(FEATS),
                                    '_', rng.choice(['_', 'x=1', 'B|a=2'])])
    ids = [str(k) for k in range(0, n + 1)] + [e[0] for e in empties]
    for row, at in [(w, 7) for w in words] + [(e, 6) for e in empties]:
        if rng.random() < .3 or at == 6:
            row[at] = '|'.join(h + ':' + rng.choice(['dep', 'conj:and', 'nmod:v:acc', 'nsubj']) for h in rng.sample(ids, min(len(ids), rng.choice((1, 1, 2, 3)))))
    tokens, k = [], 1
    while k < n:
        if rng.random() < .3:
            last = min(n, k + rng.choice((1, 1, 2, 3)))
            tokens.append([k, last, rng.choice(FORMS), rng.choice(TOKMISC)])
            k = last + 1
        else:
            k += 1
    if rng.random() < .06:
        words, empties, tokens = [], [], []
    return {'sid': '=' + zone_id if zone_id else '', 'text': '=' + rng.choice(['A b.', 'x', 'č\u2028č', '= 1', 'a\x85b', '# x', '$TEXT']) if rng.random() < .6 else '',
            'nd': rng.choice(['!', '=d1', '=d 2', '=x/y']) if rng.random() < .15 else '', 'np': rng.choice(['!', '=p1', '=p 2']) if rng.random() < .2 else '',
            'com': [], 'js': [], 'dj': [], 'ge': '', 'w': words, 'e': empties, 'm': tokens}


def tree_lines(rng, t, ge, first):
    head = []
    if t['sid']:
        head.append('# sent_id' + rng.choice([' = ', ' = ', '=', ' ']) + t['sid'][1:])
    if t['text']:
        head.append('# text' + rng.choice([' = ', ' = ', '=']) + t['text'][1:])
    for name, value in (('newdoc', t['nd']), ('newpar', t['np'])):
        if value:
            head.append('# ' + name + (' id' + rng.choice([' = ', '=']) + value[1:] if value != '!' else ''))
    if ge and (first or rng.random() < .5):
        head.append('# global.Entity = ' + ge)
    head += rng.sample(COMMENTS, rng.choice((0, 0, 1, 2, 3)))
    if rng.random() < .15:
        head += ['# %s%s = %s' % (rng.choice(['json_', 'json_', 'doc_json_']), rng.choice('abcdK'), rng.choice(JSONS)) for _ in range(rng.choice((1, 2, 3)))]
    if rng.random() < .08:
        head += [rng.choice(head)] if head else []
    if rng.random() < .5:
        rng.shuffle(head)
    lines = [[h] for h in head]
    at = {}
    for e in t['e']:
        at.setdefault(int(e[0].split('.')[0]), []).append([e[0], e[1], e[2], e[3], e[4], e[5], '_', '_', e[6], e[7]])
    lines += at.get(0, [])
    for k, w in enumerate(t['w'], 1):
        lines += [['%d-%d' % (m[0], m[1]), m[2]] + ['_'] * 7 + [m[3]] for m in t['m'] if m[0] == k]
        lines.append([str(k)] + w)
        lines += at.get(k, [])
    if not t['w']:
        lines.append(['1', rng.choice(['_', 'x']), '_', '_', '_', '_', '0', '_', '_', 'Empty=Yes'])
    return lines + [[]]


def random_opts(rng):
    return WRITE + [{'sid': rng.random() < .5, 'text': rng.random() < .5, 'empty': rng.random() < .5}]


def random_ids(rng, count, api):
    """Bundles as lists of sent_ids."""
    out = []
    for k in range(count):
        name = rng.choice(['s%d', 'x-%d', 'doc.%d', '1%03d', 'č%d', 'a=%d']) % rng.randint(1, 40)
        if out and out[-1] and out[-1][0].split('/')[0] == name:
            name += 'b'
        if rng.random() < .15 and not api:
            out.append([''])
        elif rng.random() < .3:
            zones = rng.sample(sorted(set(ZONES)), rng.randint(2, 4))
            out.append([name + ('/' + z if z else '') for z in zones])
        else:
            z = rng.choice(ZONES)
            out.append([name + ('/' + z if z else '')])
    return out


MODES = ['string', 'string', 'slow', 'slow', 'handle', 'file', 'bom', '.gz', '.xz', '.bz2', 'crlf', 'nofinal', 'blanks', 'comments']


def clean(mode, lines):
    """What a mode cannot carry: the line-by-line reader and the trailing-newline variants strip ends of lines."""
    return lines


def random_files(tier, seed, stim):
    rng = random.Random('conllu%s' % seed)
    out = []
    for num in range(12000 if tier == 'thorough' else 1100):
        ge = rng.choice(['', '', 'eid-etype-head-other', 'eid'])
        lines = []
        for ids in random_ids(rng, rng.choice((1, 1, 2, 3, 5)), False):
            for sid in ids:
                lines += tree_lines(rng, random_tree(rng, sid, True, rng.choice((8, 14))), ge, not lines)
        out.append({'in': lines, 'mode': MODES[num % len(MODES)], 'opts': random_opts(rng), 'twice': True})
    return out


def all_files(tier, seed, stim):
    rng = random.Random('all%s' % seed)
    stim = sorted(stim, key=lambda s: json.dumps(s, sort_keys=True))
    return [{'in': s['f'], 'mode': ['string', 'slow'][num % 2], 'opts': random_opts(rng)} for num, s in enumerate(stim)]


def random_builds(tier, seed, stim):
    rng = random.Random('build%s' % seed)
    out = []
    for _ in range(6000 if tier == 'thorough' else 500):
        bundles = []
        for num, ids in enumerate(random_ids(rng, rng.choice((1, 1, 2, 3)), True), 1):
            how = rng.choice(('bundle_id', 'bundle_id', 'sent_id', 'number')) if len(ids) == 1 and '/' not in ids[0] else rng.choice(('bundle_id', 'number'))
            name = str(num) if how == 'number' else ids[0].split('/')[0]
            trees = []
            for sid in ids:
                t = random_tree(rng, name + sid[len(sid.split('/')[0]):], True, 8)
                t['com'] = rng.sample([c for c in COMMENTS if 'global.columns' not in c and c[1] == ' '], rng.choice((0, 0, 1, 2)))
                t['js'] = [[k, rng.choice(JSONS)] for k in rng.sample('abcK', rng.choice((0, 0, 0, 2)))]
                trees.append(t)
            bundles.append({'id': name, 'how': how, 'trees': trees})
        out.append({'in': {'bundles': bundles, 'dj': [[k, rng.choice(JSONS)] for k in rng.sample('abK', rng.choice((0, 0, 0, 2)))],
                           'ge': rng.choice(['', '', 'eid-etype'])}, 'opts': random_opts(rng)})
    return out


# ------------------------------------------------------------------------------- damaged files
def run_heads(case, emit):
    from udapi.block.read.conllu import Conllu
    heads = case['h']
    rec = {'k': 'hist', 'op': 'heads', 'h': heads, 'strict': case['strict'], 'fix': case['fix'], 'x': '', 'r': [], 'ok': False}
    lines = [[str(k), 'w%d' % k, '_', 'X', '_', '_', h, 'dep', '_', '_'] for k, h in enumerate(heads, 1)]
    text = to_text(lines + [[]])
    if case['more']:
        good = to_text([['1', 'g', '_', 'X', '_', '_', '0', 'root', '_', '_'], []])
        text = good + text + good
    try:
        reader = Conllu(filehandle=io.StringIO(text), strict=case['strict'], fix_cycles=case['fix'], empty_parent=case['ep'],
                        bundles_per_doc=100 if case['slow'] else 0)
        docs = reader.read_documents()
        trees = list(docs[0].trees)
        tree = trees[1 if case['more'] else 0]
        nodes = tree.descendants
        rec['r'] = [n.parent.ord for n in nodes]
        ups = []
        for n in nodes:
            steps = 0
            while n is not tree and n is not None and steps <= len(heads):
                n, steps = n.parent, steps + 1
            ups.append(n is tree)
        rec['ok'] = (len(trees) == (3 if case['more'] else 1) and all(ups) and len(tree.descendants) == len(heads)
                     and all([c.parent is n for n in nodes for c in n.children])
                     and sorted(c.ord for n in [tree] + list(nodes) for c in n.children) == list(range(1, len(heads) + 1)))
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    emit(rec)


def head_cases(tier, seed, stim):
    rng = random.Random('heads%s' % seed)
    out = []

    def add(heads, strict, fix):
        out.append({'h': heads, 'strict': strict, 'fix': fix, 'ep': rng.choice(('warn', 'ignore')), 'more': rng.random() < .3, 'slow': rng.random() < .3})
    for n in range(1, 5 if tier == 'thorough' else 4):
        for heads in itertools.product(['-1', '_'] + [str(k) for k in range(n + 2)], repeat=n):
            for strict in (False, True):
                for fix in (False, True):
                    add(list(heads), strict, fix)
    for heads in itertools.product([str(k) for k in range(5)], repeat=4):
        add(list(heads), rng.random() < .5, True)
    for _ in range(20000 if tier == 'thorough' else 2500):
        n = rng.randint(5, 14)
        heads = [str(rng.choice([k for k in range(0, n + 1)])) for _ in range(n)]
        if rng.random() < .5:                     # mostly a tree
            heads = ['0'] + [str(rng.randint(0, k - 1)) for k in range(2, n + 1)]
            for _ in range(rng.choice((0, 1, 2))):
                heads[rng.randrange(n)] = str(rng.randint(0, n))
        if rng.random() < .15:
            heads[rng.randrange(n)] = rng.choice(['_', str(n + 1), '-2', 'x', '99'])
        add(heads, rng.random() < .3, rng.random() < .7)
    return out


def run_columns(case, emit):
    from udapi.block.read.conllu import Conllu
    rows = case['rows']
    want = []
    for row in rows:
        full = (row + ['_'] * 10)[:10]
        want.append([full[1], full[2], full[3], full[4], full[5], '0' if full[6] == '_' else full[6], full[7], full[8], full[9]])
    rec = {'k': 'hist', 'op': 'columns', 'n': [len(r) for r in rows], 'strict': case['strict'], 'x': '', 'w': [], 'want': want}
    try:
        reader = Conllu(filehandle=io.StringIO(to_text(rows + [[]])), strict=case['strict'], bundles_per_doc=100 if case['slow'] else 0)
        doc = reader.read_documents()[0]
        rec['w'] = project(doc)['b'][0]['trees'][0]['w']
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    emit(rec)


def column_cases(tier, seed, stim):
    rng = random.Random('columns%s' % seed)
    out = []
    for _ in range(4000 if tier == 'thorough' else 600):
        n = rng.randint(1, 4)
        rows = []
        for k in range(1, n + 1):
            row = [str(k), rng.choice(FORMS[:4]), 'l', rng.choice(UPOS), 'x', 'A=1', str(rng.randint(0, k - 1)), 'dep', '_', rng.choice(['_', 'a=1'])]
            if rng.random() < .5:
                row = row[:rng.randint(1, 9)] if rng.random() < .7 else row + ['extra'] * rng.randint(1, 3)
            rows.append(row)
        out.append({'rows': rows, 'strict': rng.random() < .4, 'slow': rng.random() < .4})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ReadBack Stable Kept Order EmitInv\nCONSTANTS N=%d M=%d Emit=TRUE\n'
PARTS = [
    Part('files-all', 'Trace_Conllu', run_roundtrip, all_files, mc=[dict(module='MC_Conllu', cfg=CFG % (3, 2), thorough_cfg=CFG % (4, 3))]),
    Part('files', 'Trace_Conllu', run_roundtrip, random_files),
    Part('built', 'Trace_Conllu', run_build, random_builds),
    Part('heads', 'Trace_Conllu', run_heads, head_cases),
    Part('columns', 'Trace_Conllu', run_columns, column_cases),
]
