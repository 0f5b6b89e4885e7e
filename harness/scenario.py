"""Scenarios, dispatch of documents to blocks and output files (specification: Scenario)."""
import atexit
import contextlib
import gc
import io
import json
import os
import random
import runpy
import shutil
import sys
import tempfile

from tlv.core import Part

SCRATCH = os.environ.get('TLV_SCRATCH')


def arguments(tokens):
    return type('Args', (), {'scenario': tokens})()


# ------------------------------------------------------------------------------------- parsing
def show_value(value):
    return 'int:%d' % value if isinstance(value, int) else 'str:' + value


def run_parse(case, emit):
    from udapi.core.run import Run
    from rblocks import probe
    names = {'a.B': '.rblocks.Probe', 'c.D': '.rblocks.Probe', 'a': '.rblocks.Probe'}
    toks = case['toks']
    rec = {'k': 'hist', 'op': 'parse', 'toks': toks, 'x': '', 'b': []}
    probe.MADE.clear(), probe.EVENTS.clear(), probe.DOCS.clear()
    old = sys.stdin
    sys.stdin = io.TextIOWrapper(io.BytesIO(b''))
    try:
        runner = Run(arguments([names.get(t, t) for t in toks]))
        blocks = runner.execute()
        own = [b for b in blocks if b[0] == '.rblocks.Probe']
        back = [t for t in toks if t in names]
        if [b[1] for b in own] != probe.MADE:
            rec['x'] = 'blocks made in another order'
        for num, (_name, block, _args) in enumerate(own):
            rec['b'].append({'n': back[num] if num < len(back) else '?', 'a': [[k, show_value(v)] for k, v in block.given.items()]})
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    finally:
        sys.stdin = old
    emit(rec)


def parse_all(tier, seed, stim):
    rng = random.Random('parse%s' % seed)
    out = [{'toks': s['q']} for s in stim if s['m'] == 'parse'] + [{'toks': []}]
    pieces = ['a', '=', '==', '0', '7', '12', 'x y', '-', '.', '"', '|', 'č', '$.', '\t']
    for _ in range(20000 if tier == 'thorough' else 1500):
        toks = []
        for _t in range(rng.randint(1, 6)):
            if rng.random() < .3:
                toks.append(rng.choice(['a.B', 'c.D']))
            else:
                toks.append(rng.choice(['k', 'files', 'node', 'x1']) + '=' + ''.join(rng.choice(pieces) for _p in range(rng.choice((0, 1, 1, 2, 4)))))
        if rng.random() < .9:
            toks.insert(0, 'a.B')
        out.append({'toks': toks})
    return out


def run_cli(case, emit):
    """bin/udapy with the scenario it builds caught."""
    import udapi.core.run
    flags = case['f']
    rec = dict(case, k='hist', op='cli', x='', toks2=[])
    caught = []

    class Catch:
        def __init__(self, args):
            caught.extend(args.scenario)

        def execute(self):
            pass
    old = (sys.argv, sys.excepthook, udapi.core.run.Run, atexit.register, sys.stdin)
    try:
        letters = ''.join(k for k in 'sTHACMN' if flags[k])
        argv = (['-' + letters] if case['joined'] and letters else ['-' + k for k in letters])
        sys.argv = ['udapy', '-q'] + argv + [x for t in flags['X'] for x in ('-X', t)] + case['toks']
        udapi.core.run.Run = Catch
        atexit.register = lambda *a, **k: None
        runpy.run_path(os.path.join(os.environ['TLV_REPO'], 'bin', 'udapy'), run_name='__main__')
        rec['toks2'] = list(caught)
    except SystemExit as error:
        rec['x'] = 'exit %s' % error
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    finally:
        sys.argv, sys.excepthook, udapi.core.run.Run, atexit.register, sys.stdin = old
        gc.enable()
    emit(rec)


def cli_all(tier, seed, stim):
    rng = random.Random('cli%s' % seed)
    out = []
    for mask in range(128):
        flags = {k: bool(mask >> i & 1) for i, k in enumerate('sTHACMN')}
        flags['X'] = rng.choice([[], [], ['attributes=form'], ['x=1', 'util.Wc'], ['layout=align']])
        out.append({'f': flags, 'joined': rng.random() < .5, 'toks': rng.choice([['util.Mark', 'node=1'], ['read.Sentences'], ['a.B', 'x=-s', 'c.D'], ['util.Eval', 'node=a b']])})
    return out


# ----------------------------------------------------------------------------------- execution
def run_exec(case, emit):
    from udapi.core.run import Run
    from rblocks import probe
    rec = dict(case, k='hist', op='exec', x='', ev=[])
    probe.MADE.clear(), probe.EVENTS.clear(), probe.DOCS.clear()
    toks = []
    for docs in case['b']:
        toks += ['.rblocks.Source', 'docs=%d' % docs] if docs else ['.rblocks.Probe']
    old = sys.stdin
    text = '1\tw\t_\tX\t_\t_\t0\troot\t_\t_\n\n' * 2
    sys.stdin = io.TextIOWrapper(io.BytesIO(text.encode()), encoding='utf-8')
    try:
        Run(arguments(toks)).execute()
        rec['ev'] = list(probe.EVENTS)
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    finally:
        sys.stdin = old
    emit(rec)


def exec_all(tier, seed, stim):
    rng = random.Random('exec%s' % seed)
    out = [{'b': s['q']} for s in stim if s['m'] == 'exec']
    for _ in range(2000 if tier == 'thorough' else 200):
        out.append({'b': [rng.choice((0, 0, 0, 1, 2, 5, 7)) for _b in range(rng.randint(2, 7))]})
    return out


# ------------------------------------------------------------------------------------ dispatch
def make_doc(spec):
    from udapi.core.document import Document
    doc = Document()
    where = {}
    for i, trees in enumerate(spec, 1):
        bundle = doc.create_bundle()
        where[bundle] = [i, 0, 0]
        for j, t in enumerate(trees, 1):
            root = bundle.create_tree(t['z'])
            where[root] = [i, j, 0]
            words = [root.create_child(form='w%d' % k) for k in range(1, t['w'] + 1)]
            if len(words) > 2:
                words[0].parent = words[2]
            base = words[0] if words else None
            for k in range(1, t['e'] + 1):
                if base is not None:
                    empty = base.create_empty_child('dep', form='e%d' % k)
                else:
                    empty = root.create_empty_child(form='e%d' % k)
                    empty.ord = '0.%d' % k
                where[empty] = [i, j, k]
            for k, word in enumerate(words, 1):
                where[word] = [i, j, k]
            for k in range(1, t['m'] + 1):
                where[root.create_multiword_token(words[2 * k - 2:2 * k], form='m')] = [i, j, k]
    return doc, where


def make_block(names, sup, events, where, **kwargs):
    from udapi.core.block import Block

    def method(name):
        def plain(self, thing):
            events.append([name] + where[thing])
            if sup and name in ('tree', 'bundle'):
                getattr(Block, 'process_' + name)(self, thing)
        return plain
    attrs = {'process_' + ('empty_node' if n == 'empty' else n): method(n) for n in names}
    return type('Sample', (Block,), attrs)(**kwargs)


def run_disp(case, emit):
    spec, opt = case['d'], case['o']
    rec = dict(case, k='hist', op='disp', x='', ev=[], del_=[])
    rec['del'] = rec.pop('del_')
    doc, where = make_doc(spec)
    names = list(opt['ov'])
    before = {t: where[t][:2] for t in doc.trees}
    try:
        block = make_block(names, opt['sup'], rec['ev'], where, zones=opt['zones'], if_empty_tree=opt['ife'])
        if case['how'] == 'run':
            block.run(doc)
        else:
            block.apply_on_document(doc)
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    left = list(doc.trees)
    rec['del'] = [pos for t, pos in before.items() if t not in left]
    emit(rec)


OVS = [ov for n in range(16) for ov in [[x for i, x in enumerate(['bundle', 'tree', 'node', 'empty']) if n >> i & 1]]
       if 'empty' not in ov or not ('bundle' in ov or 'tree' in ov)]


def random_doc(rng):
    zones = ['', 'en', 'cs', 'en_x', 'de']
    return [[{'z': z, 'w': rng.choice((0, 0, 1, 2, 4, 5)), 'e': rng.choice((0, 0, 1, 3)), 'm': 0} for z in rng.sample(zones, rng.choice((0, 1, 1, 2, 3)))]
            for _ in range(rng.choice((0, 1, 2, 3)))]


ZONES = ['all', 'all', '', 'en', 'en,cs', 'cs,en', 'de', 'en_x', ',en', 'en,', 'x', 'e', 'cs,all']


def disp_options(rng, doc):
    opt = {'zones': rng.choice(ZONES), 'ife': rng.choice(['process', 'process', 'skip', 'skip_warn', 'delete', 'fail', 'other']),
           'ov': rng.choice(OVS), 'sup': rng.random() < .5}
    # What happens to empty trees of other zones is not promised.
    if opt['ife'] in ('delete', 'fail', 'other') and any(not t['w'] for b in doc for t in b):
        opt['zones'] = 'all'
    return opt


def disp_all(tier, seed, stim):
    rng = random.Random('disp%s' % seed)
    docs = [s['q'] for s in stim if s['m'] == 'disp']
    out = []
    for doc in docs:
        for _ in range(40 if tier == 'thorough' else 3):
            out.append({'d': doc, 'o': disp_options(rng, doc), 'how': rng.choice(('run', 'apply'))})
    rng.shuffle(out)
    if tier != 'thorough':
        out = out[:3000]
    for _ in range(20000 if tier == 'thorough' else 1500):
        doc = random_doc(rng)
        out.append({'d': doc, 'o': disp_options(rng, doc), 'how': rng.choice(('run', 'apply'))})
    return out


def run_eval(case, emit):
    from udapi.block.util.eval import Eval
    import builtins
    opt = case['o']
    doc, where = make_doc(case['d'])
    log = []
    rec = dict(case, k='hist', op='eval', x='', ev=[])

    def hook(name, this, **others):
        """The variables a piece of code sees have to fit together."""
        good = True
        for key, value in others.items():
            if key in ('doc', 'document'):
                good = good and value is doc
            elif key == 'bundle':
                good = good and (this is value or this.root.bundle is value if name not in ('bundle', 'before_bundle', 'after_bundle') else this is value)
            elif key in ('tree', 'root'):
                good = good and this.root is value if name != 'tree' else this is value
        place = [0, 0, 0] if this is None or this is doc else where[this]
        log.append([('node' if name == 'node' and not this.is_empty() else 'empty' if name == 'node' else name) if good else '!' + name] + place)
    builtins.tlv_hook = hook
    codes = {'start': 'tlv_hook("start", None)', 'end': 'tlv_hook("end", None)'}
    for name in ('before_doc', 'doc', 'after_doc'):
        codes[name] = 'tlv_hook("%s", this, doc=doc)' % name
    codes['after_doc'] = codes['after_doc'].replace('doc=doc', 'document=document')
    for name in ('before_bundle', 'bundle', 'after_bundle'):
        codes[name] = 'tlv_hook("%s", this, bundle=bundle, doc=doc, document=document)' % name
    codes['tree'] = 'tlv_hook("tree", this, tree=tree, root=root, bundle=bundle, doc=document)'
    codes['node'] = 'tlv_hook("node", node, tree=tree, root=root, bundle=bundle); $.form += "" if this is node else "!"; count_"n" += 1'
    codes['mwt'] = 'tlv_hook("mwt", mwt, tree=tree, bundle=bundle); $.form = "n"'
    try:
        block = Eval(zones=opt['zones'], if_empty_tree=opt['ife'], empty_nodes=opt['en'], **{k: codes[k] for k in opt['on']})
        block.run(doc)
        rec['ev'] = log
        if any('!' in n.form for n in doc.nodes) or block.count['n'] != sum(1 for e in log if e[0] in ('node', 'empty')):
            rec['x'] = 'this or count differs'
    except Exception as error:  # pylint: disable=broad-except
        rec['x'] = '%s: %s' % (type(error).__name__, error)
    finally:
        del builtins.tlv_hook
    emit(rec)


def eval_all(tier, seed, stim):
    rng = random.Random('eval%s' % seed)
    names = ['start', 'end', 'before_doc', 'doc', 'after_doc', 'before_bundle', 'bundle', 'after_bundle', 'tree', 'node', 'mwt']
    docs = [s['q'] for s in stim if s['m'] == 'disp']
    out = []
    for num in range(20000 if tier == 'thorough' else 1500):
        doc = json.loads(json.dumps(rng.choice(docs) if num % 2 else random_doc(rng)))
        for b in doc:
            for t in b:
                t['m'] = rng.randint(0, t['w'] // 2)
        opt = disp_options(rng, doc)
        opt = {'zones': opt['zones'], 'ife': rng.choice(['process', 'skip']), 'en': rng.random() < .4, 'on': rng.sample(names, rng.choice((1, 2, 3, 5, 11)))}
        out.append({'d': doc, 'o': opt})
    return out


# -------------------------------------------------------------------------------------- output
def writer_class(name):
    from udapi.block.write.conllu import Conllu
    from udapi.block.write.sentences import Sentences
    from udapi.block.write.sdparse import Sdparse
    from udapi.block.write.textmodetrees import TextModeTrees
    from udapi.core.basewriter import BaseWriter

    class Plain(BaseWriter):
        def process_document(self, document):
            print('plain', document[0].trees[0].descendants[0].form)
    return {'conllu': Conllu, 'sentences': Sentences, 'sdparse': Sdparse, 'trees': TextModeTrees, 'plain': Plain}[name]


def out_doc(num, meta):
    from udapi.core.document import Document
    doc = Document()
    doc.create_bundle().create_tree().create_child(form='číslo%d' % num, upos='X', deprel='root')
    if meta['name']:
        doc.meta['docname'] = meta['name']
    if meta['from']:
        doc.meta['loaded_from'] = meta['from']
    return doc


def run_out(case, emit):
    opt, metas = case['o'], case['docs']
    cls = writer_class(case['w'])
    rec = dict(case, k='hist', op='out', x='', out=[], names=[], holds=[], restored=True)
    refs = []
    for num, meta in enumerate(metas, 1):
        buffer = io.StringIO()
        with contextlib.redirect_stdout(buffer):
            cls().apply_on_document(out_doc(num, meta))
        refs.append(buffer.getvalue())

    def parts(text, limit):
        """Which documents make up the text (0: what the other block printed)."""
        found, k = [], 0
        while text:
            piece = refs[k] if k < len(refs) and text.startswith(refs[k]) else None
            if piece is None:
                for j, ref in enumerate(refs):
                    if text.startswith(ref):
                        piece, k = ref, j
                        break
            if piece is not None:
                found.append(k + 1)
                k += 1
            elif text.startswith('!next\n'):
                piece = '!next\n'
                found.append(0)
            else:
                return found + [-1]
            text = text[len(piece):]
        return found
    base = tempfile.mkdtemp(prefix='out_', dir=SCRATCH)
    old_dir, old_out = os.getcwd(), sys.stdout
    handle = io.StringIO()
    before = {m['from'] for m in metas if m['from']} if case['exist'] else set()
    try:
        os.chdir(base)
        for name in before:
            os.makedirs(os.path.dirname(name) or '.', exist_ok=True)
            with open(name, 'w', encoding='utf-8') as out:
                out.write('old\n' * 50)
        stdout = io.StringIO()
        sys.stdout = stdout
        kwargs = {}
        if opt['files'] == ['handle']:
            kwargs['filehandle'] = handle
        elif opt['files'] != ['-']:
            kwargs['files'] = list(opt['files']) if case['list'] else ' '.join(opt['files'])
        if case['enc'] != 'utf-8':
            kwargs['encoding'] = case['enc']
        if case['nl'] != '\n':
            kwargs['newline'] = case['nl']
        if opt['docname']:
            kwargs['docname_as_file'] = True
        if opt['overwrite']:
            kwargs['overwrite'] = True
        if opt['path']:
            kwargs['path'] = opt['path']
        stage = 'init'
        try:
            block = cls(**kwargs)
            stage = 'run'
            block.process_start()
            for num, meta in enumerate(metas, 1):
                doc = out_doc(num, meta)
                block.apply_on_document(doc)
                if sys.stdout is not stdout:
                    rec['restored'] = False
                    sys.stdout = stdout
                print('!next')
            block.process_end()
        except Exception as error:  # pylint: disable=broad-except
            rec['x'] = 'init' if stage == 'init' else '%s: %s' % (type(error).__name__, error)
        sys.stdout = old_out
        rec['out'] = parts(stdout.getvalue(), len(metas))
        for folder, _dirs, files in os.walk('.'):
            for name in files:
                name = os.path.normpath(os.path.join(folder, name))
                with open(name, 'rb') as inp:
                    data = inp.read()
                if name in before and data == b'old\n' * 50:
                    continue
                text = data.decode(case['enc'], errors='replace')
                if case['nl'] == '\r\n':
                    text = text.replace('\n', '?').replace('\r?', '\n')
                rec['names'].append('=' + name)
                rec['holds'].append(parts(text, len(metas)))
        if opt['files'] == ['handle'] and stage == 'run':
            rec['names'].append('handle')
            rec['holds'].append(parts('?closed' if handle.closed else handle.getvalue(), len(metas)))
    finally:
        sys.stdout = old_out
        os.chdir(old_dir)
        shutil.rmtree(base)
    emit(rec)


def out_all(tier, seed, stim):
    rng = random.Random('out%s' % seed)
    names = ['a.conllu', 'b.conllu', 'd/a.conllu', 'd/e/c.x.txt', 'noext', 'd.d/noext', 'z/a']
    paths = ['p', 'p/', 'p/q', 'p/*', 'p/*.out', '*.out', 'p/new', 'p.x', 'n*', '*', 'p/n*.z']
    out = []
    for _ in range(20000 if tier == 'thorough' else 2500):
        docs = [{'name': rng.choice(['', 'doc1', 'doc2', 'x/doc.conllu', 'd 3']), 'from': rng.choice(['', *names])} for _d in range(rng.choice((1, 1, 2, 3, 4)))]
        opt = {'files': ['-'], 'docname': False, 'overwrite': False, 'path': ''}
        kind = rng.random()
        if kind < .3:
            opt['files'] = [rng.choice(names + ['-', 'new/dir/f.txt', 'o1', 'o2', 'o3']) for _f in range(rng.choice((1, 2, 3, 4)))]
            if opt['files'] == ['-']:
                opt['files'] = ['o1']
        elif kind < .4:
            opt['files'] = ['handle']
        elif kind < .55:
            opt['docname'] = True
        elif kind < .7:
            opt['overwrite'] = True
            opt['path'] = rng.choice(['', '', rng.choice(paths)])
        elif kind < .9:
            opt['path'] = rng.choice(paths)
        if rng.random() < .07 and opt['files'] != ['handle']:
            opt[rng.choice(['docname', 'overwrite'])] = True
        kind = rng.choice(['conllu', 'plain', 'sentences', 'sdparse', 'trees'])
        if opt['docname'] and opt['path']:
            opt['path'] = ''
        targets = [d['from'] for d in docs]
        exist = rng.random() < .5 and not any(a and b and a != b and (b.startswith(a + '/')) for a in targets for b in targets)
        out.append({'o': opt, 'docs': docs, 'w': kind, 'list': rng.random() < .5, 'exist': exist,
                    'enc': rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'utf-8' if kind == 'trees' else 'iso-8859-2']), 'nl': rng.choice(['\n', '\n', '\r\n'])})
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ParseInv ExecInv DispInv OutInv EmitInv\nCONSTANTS N=%d Emit=TRUE\n'
MC = [dict(module='MC_Scenario', cfg=CFG % 3, thorough_cfg=CFG % 4)]
PARTS = [
    Part('parse', 'Trace_Scenario', run_parse, parse_all, mc=MC),
    Part('cli', 'Trace_Scenario', run_cli, cli_all),
    Part('exec', 'Trace_Scenario', run_exec, exec_all, mc=MC),
    Part('disp', 'Trace_Scenario', run_disp, disp_all, mc=MC),
    Part('eval', 'Trace_Scenario', run_eval, eval_all, mc=MC),
    Part('out', 'Trace_Scenario', run_out, out_all, mc=MC),
]
