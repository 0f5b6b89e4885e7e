"""Documents: identifiers, division of files into documents, file lists (specifications: Doc, Load, FileNames)."""
import bz2
import gzip
import io
import json
import lzma
import os
import random
import re
import shutil
import sys
import tempfile

from tlv.core import Part


# --------------------------------------------------------------------------------- identifiers
def make_words(root, name):
    """Two words, an empty node between them and a token over both."""
    first = root.create_child(form=name)
    second = root.create_child(form='b')
    root.create_multiword_token([first, second], form='ab')
    first.create_empty_child('dep', form='e')


def tree_name(root):
    return root.descendants[0].form


def doc_view(doc):
    out = []
    for bundle in doc.bundles:
        trees = []
        for root in bundle.trees:
            first, second = root.descendants
            trees.append({'t': first.form, 'zone': root.zone, 'sid': root.sent_id,
                          'ad': [root.address(), first.address(), root.empty_nodes[0].address(), second.address(),
                                 first.multiword_token.address()]})
        out.append({'id': bundle.bundle_id, 'n': bundle.number, 'trees': trees})
    return out


def run_ids(case, emit):
    from udapi.core.document import Document
    from udapi.core.root import Root
    doc, other = Document(), Document()
    hist, obs = [], []
    for num, raw in enumerate(case['h'], 1):
        op = dict(raw)
        # Random histories name bundles and trees by any number.
        for b, t in (('b', 't'), ('b2', 't2')):
            if b in op:
                if not doc.bundles:
                    break
                op[b] = (op[b] - 1) % len(doc.bundles) + 1
                if t in op:
                    if not doc.bundles[op[b] - 1].trees:
                        break
                    op[t] = (op[t] - 1) % len(doc.bundles[op[b] - 1].trees) + 1
        else:
            bundle = doc.bundles[op['b'] - 1] if 'b' in op else None
            tree = bundle.trees[op['t'] - 1] if 't' in op else None
            kind = op['o']
            if kind in ('create_tree', 'add_tree'):
                op['n'] = 't%d' % num
            if kind == 'zone' and op['v'] == tree.zone or kind == 'sent_id' and '/' not in op['v'] and tree.zone:
                continue
            ob = {'x': '', 'r': '', 'has': False}
            try:
                if kind == 'create_bundle':
                    doc.create_bundle()
                elif kind == 'remove_bundle':
                    bundle.remove()
                elif kind == 'bundle_id':
                    bundle.bundle_id = op['v']
                elif kind == 'create_tree':
                    make_words(bundle.create_tree(op['v']) if num % 2 or op['v'] else bundle.create_tree(), op['n'])
                elif kind == 'add_tree':
                    root = Root(zone=op['v'] or None)
                    make_words(root, op['n'])
                    bundle.add_tree(root)
                elif kind == 'zone':
                    tree.zone = op['v']
                elif kind == 'sent_id':
                    tree.sent_id = op['v']
                elif kind == 'remove_tree':
                    tree.remove()
                elif kind == 'lookup':
                    ob['has'] = bundle.has_tree(op['v'])
                    try:
                        ob['r'] = tree_name(bundle.get_tree(op['v']))
                    except Exception:  # pylint: disable=broad-except
                        ob['r'] = ''
                elif kind == 'precedes':
                    try:
                        second = doc.bundles[op['b2'] - 1].trees[op['t2'] - 1]
                        ob['r'] = 'yes' if tree.descendants[op['k'] - 1].precedes(second.descendants[op['k2'] - 1]) else 'no'
                    except ValueError:
                        ob['r'] = 'error'
                else:
                    raise RuntimeError(kind)
            except RuntimeError:
                raise
            except Exception as error:  # pylint: disable=broad-except
                ob['x'] = type(error).__name__
            ob['v'] = doc_view(doc)
            ob['all'] = [tree_name(t) for t in doc.trees]
            if [n.form for n in doc.nodes] != [f for t in doc.trees for f in (tree_name(t), 'b')]:
                ob['all'] = ['nodes differ']
            hist.append(op)
            obs.append(ob)
    emit({'k': 'hist', 'op': 'ids', 'h': hist, 'obs': obs, 'x': ''})


def ids_all(tier, seed, stim):
    return stim


def ids_random(tier, seed, stim):
    rng = random.Random('ids%s' % seed)
    zones = ['', 'a', 'b', 'a_B', 'en-us', 'en_us2', 'all', 'B', 'a/b', 'a_', 'x_all', 'cs_', '1', 'a b', '_A']
    out = []
    for _ in range(6000 if tier == 'thorough' else 500):
        hist = [{'o': 'create_bundle'}]
        for _step in range(rng.choice((12, 25, 40))):
            kind = rng.choice(['create_bundle', 'remove_bundle', 'bundle_id'] + ['create_tree', 'zone', 'sent_id', 'precedes'] * 3
                              + ['remove_tree', 'add_tree', 'add_tree', 'lookup', 'lookup'])
            op = {'o': kind}
            if kind != 'create_bundle':
                op['b'] = rng.randint(1, 50)
            if kind in ('zone', 'sent_id', 'remove_tree', 'precedes'):
                op['t'] = rng.randint(1, 50)
            if kind in ('create_tree', 'add_tree', 'zone', 'lookup'):
                op['v'] = rng.choice(zones)
                if kind == 'lookup' and rng.random() < .5:
                    op['v'] = rng.choice(zones[:4])
            if kind == 'bundle_id':
                op['v'] = rng.choice(['x', 'y-1', '7', 's 3', 'bundle'])
            if kind == 'sent_id':
                op['v'] = rng.choice(['x', 'y.2', '12']) + rng.choice(['', '/' + rng.choice([z for z in zones if z]), '/' + rng.choice(zones[1:5])])
                if rng.random() < .05:
                    op['v'] = 'x/a/b'
            if kind == 'precedes':
                op.update(b2=rng.randint(1, 50) if rng.random() < .7 else op['b'], t2=rng.randint(1, 50), k=rng.randint(1, 2), k2=rng.randint(1, 2))
            hist.append(op)
        out.append({'h': hist})
    return out


# ------------------------------------------------------------------------------------- loading
def scratch():
    return tempfile.mkdtemp(prefix='docs_', dir=os.environ.get('TLV_SCRATCH'))


def full_id(tree):
    return tree['id'] + ('/' + tree['zone'] if tree['zone'] else '')


def conllu_tree(tree, form):
    lines = []
    if tree['nd']:
        lines.append('# newdoc' + (' id = ' + tree['nd'][1:] if tree['nd'] != '!' else ''))
    if tree['id']:
        lines.append('# sent_id = ' + full_id(tree))
    lines.append('# text = ' + form)
    lines.append('1\t%s\t_\tX\t_\t_\t0\troot\t_\t_' % form)
    return '\n'.join(lines) + '\n\n'


class Collect:
    """Stands behind the reader in a scenario."""
    docs = []


def collector():
    from udapi.core.block import Block

    class Collector(Block):
        def process_document(self, document):
            Collect.docs.append(document)
    return Collector()


def load_view(doc, names):
    out = []
    for bundle in doc.bundles:
        out.append({'id': bundle.bundle_id, 'n': bundle.number,
                    'trees': [{'t': int(r.descendants[0].form[1:]), 'zone': r.zone, 'sid': r.sent_id,
                               'nd': '' if not r.newdoc else '!' if r.newdoc is True else '=' + r.newdoc} for r in bundle.trees]})
    loaded = doc.meta.get('loaded_from')
    return {'name': doc.meta.get('docname') or '', 'file': names.index(loaded) + 1 if loaded in names else 0, 'b': out}


def run_load(case, emit):
    from udapi.block.read.conllu import Conllu
    from udapi.core.run import Run

    class Slow(Conllu):
        def read_trees(self):
            raise NotImplementedError('slow')

    trees, opt, keep = case['s'], case['o'], case['keep']
    rec = {'k': 'hist', 'op': 'load', 'ts': trees, 'o': opt, 'keep': keep, 'x': '', 'runs': []}
    base = scratch()
    try:
        names = []
        for f in range(1, trees[-1]['f'] + 1):
            names.append(os.path.join(base, 'f%d.conllu' % f))
            with open(names[-1], 'w', encoding='utf-8') as handle:
                if case['lead'] & 1:
                    handle.write('\n')
                if case['lead'] & 2:
                    handle.write('# a comment without a tree\n\n')
                text = ''.join(conllu_tree(t, 'w%d' % i) for i, t in enumerate(trees, 1) if t['f'] == f)
                handle.write(text[:-1] if case['lead'] & 4 else text)
        args = dict(files=names, merge=opt['merge'], split_docs=opt['split'], bundles_per_doc=opt['per'], ignore_sent_id=opt['ignore'],
                    max_docs=opt['max'], zone=opt['zone'])
        if len(keep) < len(trees):
            args['sent_id_filter'] = '(%s)$' % '|'.join(re.escape(full_id(trees[i - 1])) for i in keep)
        for mode in case['modes']:
            one = {'mode': mode, 'x': '', 'docs': []}
            try:
                reader = (Slow if 'slow' in mode else Conllu)(**args)
                if 'run' in mode:
                    Collect.docs = []
                    runner = Run(type('Args', (), {'scenario': ['x']})())
                    runner.run_blocks([('r', reader, ''), ('c', collector(), '')])
                    docs = Collect.docs
                else:
                    docs = reader.read_documents()
                one['docs'] = [load_view(d, names) for d in docs if d.bundles]
            except Exception as error:  # pylint: disable=broad-except
                one['x'] = '%s: %s' % (type(error).__name__, error)
            rec['runs'].append(one)
    finally:
        shutil.rmtree(base)
    emit(rec)


def normal(stream):
    """Files numbered from 1; None if the stream is outside of what is promised."""
    first = stream[0]['f']
    stream = [dict(t, f=t['f'] - first + 1) for t in stream]
    for a, b in zip(stream, stream[1:]):
        if a['id'] and a['id'] == b['id'] and (a['f'] != b['f'] or b['nd']):
            return None
    return stream


def load_options(rng, stream, opt):
    multi = any(a['id'] and a['id'] == b['id'] for a, b in zip(stream, stream[1:]))
    opt = dict(opt)
    opt['zone'] = 'keep' if multi or rng.random() < .7 else rng.choice(['en', 'cs_b'])
    keep = list(range(1, len(stream) + 1))
    runs = [t['id'] for i, t in enumerate(stream) if not i or t['id'] != stream[i - 1]['id']]
    if all(runs) and len(set(runs)) == len(runs) and not opt['max'] and rng.random() < .4:
        kept = {full_id(stream[i - 1]) for i in rng.sample(keep, rng.randint(1, len(keep)))}
        keep = [i for i in keep if full_id(stream[i - 1]) in kept]
    return {'s': stream, 'o': opt, 'keep': keep, 'lead': rng.choice((0, 0, 0, 0, 1, 2, 3, 4, 4, 6)),
            'modes': rng.choice((['fast', 'slow'], ['fast-run', 'slow'], ['fast', 'slow-run'], ['fast-run', 'slow-run']))}


def load_all(tier, seed, stim):
    rng = random.Random('loadall%s' % seed)
    streams = sorted({json.dumps(x, sort_keys=True) for x in (normal(s['s']) for s in stim) if x})
    rng.shuffle(streams)
    space = [dict(merge=m, split=s, ignore=i, per=p, max=x) for m in (False, True) for s in (False, True) for i in (False, True)
             for p in (0, 1, 2) for x in (0, 1, 2)]
    out = []
    for num, text in enumerate(streams):
        stream = json.loads(text)
        picks = space if tier == 'thorough' else rng.sample([o for o in space if not o['ignore']], 2) + rng.sample(space, 1)
        for opt in picks:
            out.append(load_options(rng, stream, opt))
    rng.shuffle(out)
    return out[:60000 if tier == 'thorough' else 4500]


def load_random(tier, seed, stim):
    rng = random.Random('loadrnd%s' % seed)
    out = []
    while len(out) < (12000 if tier == 'thorough' else 900):
        stream, used = [], 0
        for f in range(1, rng.choice((1, 2, 3, 4)) + 1):
            for _bundle in range(rng.choice((1, 1, 2, 3, 5, 8))):
                nd = rng.choice(['', '', '', '!', '=doc %d' % used, '=d'])
                if rng.random() < .15:
                    stream.append({'id': '', 'zone': '', 'nd': nd, 'f': f})
                    continue
                # sometimes an ID seen before, but not in the previous bundle
                used += 1
                ident = 's%d' % used
                if rng.random() < .1 and len(stream) > 2 and stream[-1]['id'] != stream[0]['id'] and stream[-1]['f'] == f:
                    ident = stream[0]['id'] or ident
                for num, zone in enumerate(rng.sample(['', 'a', 'b_C', 'x'], rng.choice((1, 1, 1, 2, 3)))):
                    stream.append({'id': ident, 'zone': zone, 'nd': '' if num else nd, 'f': f})
        stream = normal(stream)
        if not stream:
            continue
        opt = {'merge': rng.random() < .4, 'split': rng.random() < .4, 'ignore': rng.random() < .15,
               'per': rng.choice((0, 0, 0, 1, 2, 3, 5)), 'max': rng.choice((0, 0, 0, 1, 2, 3, 4))}
        out.append(load_options(rng, stream, opt))
    return out


def run_parallel(case, emit):
    from udapi.block.read.conllu import Conllu
    from udapi.core.document import Document
    rec = dict(case, k='hist', op='parallel', x='', b=[])
    base = scratch()
    try:
        names = []
        for key, n, pre in (('x', case['n1'], 'a'), ('y', case['n2'], 'b')):
            names.append(os.path.join(base, key + '.conllu'))
            with open(names[-1], 'w', encoding='utf-8') as handle:
                for i in range(1, n + 1):
                    handle.write(conllu_tree({'id': pre + str(i) if pre == 'a' or case['ids2'] else '', 'zone': '', 'nd': ''}, '%s%d' % (key, i)))
        try:
            doc = Document()
            Conllu(files=[names[0]]).apply_on_document(doc)
            Conllu(files=[names[1]], zone=case['z']).apply_on_document(doc)
            rec['b'] = [{'id': b.bundle_id, 'n': b.number, 'trees': [{'t': t.descendants[0].form, 'zone': t.zone, 'sid': t.sent_id} for t in b]}
                        for b in doc.bundles]
        except Exception as error:  # pylint: disable=broad-except
            rec['x'] = '%s: %s' % (type(error).__name__, error)
    finally:
        shutil.rmtree(base)
    emit(rec)


def parallel_all(tier, seed, stim):
    top = 7 if tier == 'thorough' else 4
    return [{'n1': a, 'n2': b, 'ids2': i, 'z': z} for a in range(1, top) for b in range(1, top) for i in (False, True) for z in ('b', 'cs_x')]


# ----------------------------------------------------------------------------------- file lists
OPEN = {'gz': gzip.open, 'xz': lzma.open, 'bz2': bz2.open}


def run_files(case, emit):
    from udapi.core.files import Files
    base = scratch()
    old, old_stdin = os.getcwd(), sys.stdin
    rec = dict(case, k='hist', op='files', x='', names=[], read=[])

    def real(name):
        return base + name[2:] if name.startswith('/R/') else name

    def shown(name):
        return '/R' + name[len(base):] if name.startswith(base + '/') else name
    try:
        os.chdir(base)
        for path, text in case['fs']:
            if text == '!list':
                continue
            path = path[3:] if path.startswith('/R/') else path
            if os.path.dirname(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
            with OPEN.get(path.split('.')[-1], open)(path, 'wt', encoding='utf-8') as handle:
                handle.write(text)
        for path, lines in case['lists']:
            with open(path, 'w', encoding='utf-8') as handle:
                handle.write('\n'.join(real(x) for x in lines) + '\n' * case['last'])
        sys.stdin = io.TextIOWrapper(io.BytesIO(case['stdin']['text'].encode('utf-8')), encoding='utf-8')
        arg = case['arg']
        try:
            files = Files([real(x) for x in arg['l']] if 'l' in arg else re.sub('(?<![^ ,])/R/', base + '/', arg['s']))
            rec['names'] = [shown(x) for x in files.filenames]
            if files.number_of_files != len(files.filenames):
                rec['names'] = ['number_of_files differs']
            for num, name in enumerate(files.filenames, 1):
                if not files.has_next_file():
                    rec['read'].append('!no next file')
                try:
                    handle = files.next_filehandle()
                    if handle is None or handle is not files.filehandle or files.filename != name or files.file_number != num:
                        rec['read'].append('!inconsistent')
                    else:
                        rec['read'].append('!list' if name.endswith('.l') and handle.read() is not None else handle.read())
                        if name != '-':
                            handle.close()
                except OSError:
                    rec['read'].append('!missing')
            if files.has_next_file() or files.next_filehandle() is not None or files.filename is not None:
                rec['read'].append('!more files')
        except Exception as error:  # pylint: disable=broad-except
            rec['x'] = '%s: %s' % (type(error).__name__, error)
    finally:
        sys.stdin = old_stdin
        os.chdir(old)
        shutil.rmtree(base)
    emit(rec)


FS = [['a.txt', 'A'], ['b.txt', 'B'], ['a.gz', 'Z'], ['.h', 'H'], ['d/c.txt', 'C'], ['d/.i', 'I'], ['d/e/f.txt', 'F'],
      ['dd/c.txt', 'C2'], ['dd/c.xz', 'X'], ['dd/c.bz2', 'Y'], ['/R/b.txt', 'B']]
LISTS = [['l', ['a.txt', '', 'd/c.txt', '/R/b.txt']], ['d/l', ['c.txt', '  ', 'e/f.txt', '/R/b.txt', 'c.txt']]]
STDIN = {'text': 'a.txt\nd/e/f.txt\n', 'lines': ['a.txt', 'd/e/f.txt']}


def files_all(tier, seed, stim):
    return [{'arg': s, 'fs': FS, 'lists': LISTS, 'stdin': STDIN, 'last': num % 2} for num, s in enumerate(sorted(stim, key=str))]


def files_random(tier, seed, stim):
    rng = random.Random('files%s' % seed)
    out = []
    for _ in range(8000 if tier == 'thorough' else 700):
        pieces = ['a', 'b', 'ab', '.a', 'a.b', 'B', 'x1', 'x10', 'ž', 'x-2']
        paths = set()
        for _f in range(rng.randint(1, 8)):
            path = '/'.join(rng.choice(pieces) + 'd' for _d in range(rng.choice((0, 0, 1, 1, 2))))
            paths.add((path + '/' if path else '') + rng.choice(pieces) + rng.choice(['', '.txt', '.conllu', '.gz', '.xz', '.bz2']))
        paths = sorted(paths)
        fs = [[p, rng.choice(['', 'text', 'žluť\nline 2\n', 'x\r']).replace('\r', '') + str(i)] for i, p in enumerate(paths)]
        dirs = sorted({os.path.dirname(p) for p in paths})
        lists = []
        for i in range(rng.choice((0, 1, 2))):
            place = rng.choice(dirs)
            lines = []
            for _l in range(rng.randint(0, 4)):
                path = rng.choice(paths)
                kind = rng.random()
                lines.append('' if kind < .15 else ' \t' if kind < .2 else '/R/' + path if kind < .4 else os.path.relpath(path, place or '.'))
            lists.append([(place + '/' if place else '') + 'list%d.l' % i, [x for x in lines if '..' not in x]])
        fs += [[p, '!list'] for p, _ in lists]
        fs += [['/R/' + p, t] for p, t in fs]
        text = '\n'.join(rng.choice(paths) for _i in range(rng.randint(1, 3)))
        stdin = {'text': text + '\n', 'lines': text.split('\n')}
        if rng.random() < .2:
            arg = {'l': [rng.choice(paths) for _i in range(rng.randint(0, 4))] + (['!a*', '-'][:rng.randint(0, 2)])}
        else:
            toks, used = [], False
            for _t in range(rng.choice((0, 1, 1, 2, 3))):
                kind = rng.random()
                path = rng.choice(paths)
                if kind < .4:
                    parts = path.split('/')
                    for k, part in enumerate(parts):
                        i = rng.randrange(len(part) + 1)
                        j = rng.randint(i, len(part))
                        parts[k] = rng.choice([part, part[:i] + '*' + part[j:], part[:i] + '?' + part[i + 1:], '*'])
                    toks.append('!' + '/'.join(parts))
                elif kind < .6 and lists:
                    toks.append('@' + rng.choice(lists)[0])
                elif kind < .7 and not used:
                    used = True
                    toks.append(rng.choice(['-', '@-']))
                elif kind < .75:
                    toks.append(rng.choice(['nothing', '@nothing', '!nothing*']))
                else:
                    toks.append(path if rng.random() < .7 else '/R/' + path)
            arg = {'s': rng.choice(['', ' ', ''])}
            arg['s'] += ''.join(t + rng.choice([' ', ' ', '  ', ', ', ' ,']) for t in toks)
            if rng.random() < .5:
                arg['s'] = arg['s'].rstrip(' ')
        out.append({'arg': arg, 'fs': fs, 'lists': lists, 'stdin': stdin, 'last': rng.randint(0, 1)})
    return out


IDS = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Unique Ids EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
LOAD = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Partition Prefix Sizes Whole Torn Splits EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
FILES = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Concat Wild EmitInv\nCONSTANTS N=2 Emit=TRUE\n'
PARTS = [
    Part('ids-all', 'Trace_Doc', run_ids, ids_all, mc=[dict(module='MC_Doc', cfg=IDS % 4, thorough_cfg=IDS % 5)]),
    Part('ids-hist', 'Trace_Doc', run_ids, ids_random),
    Part('load-all', 'Trace_Doc', run_load, load_all, mc=[dict(module='MC_Load', cfg=LOAD % 4, thorough_cfg=LOAD % 5)]),
    Part('load', 'Trace_Doc', run_load, load_random),
    Part('parallel', 'Trace_Doc', run_parallel, parallel_all),
    Part('files-all', 'Trace_Doc', run_files, files_all, mc=[dict(module='MC_FileNames', cfg=FILES)]),
    Part('files', 'Trace_Doc', run_files, files_random),
]
