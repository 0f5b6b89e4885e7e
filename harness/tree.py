"""Trees: build, edit and read back real trees through the public API (specification: UdTree)."""
import json
import random
import re

from tlv.core import Part

KINDS = ('an', 'bn', 'as', 'bs')


class World:
    """One or more real trees and the ids the specification knows their nodes by."""

    def __init__(self, ntrees=1):
        from udapi.core.document import Document
        self.doc = Document()
        self.roots = []
        for _ in range(ntrees):
            self.roots.append(self.doc.create_bundle().create_tree())
        self.node = {}
        self.ident = {}
        self.fresh = 0

    def add(self, node, ident=None):
        if ident is None:
            self.fresh += 1
            ident = self.fresh
        self.fresh = max(self.fresh, ident)
        self.node[ident] = node
        self.ident[id(node)] = ident
        return ident

    def get(self, ident, tree):
        return self.roots[tree] if ident == 0 else self.node[ident]

    def idof(self, node, tree=None):
        """The id of a node: 0 for the root of the given tree, -3 for None, -2 for another root, -1 for a stranger."""
        if node is None:
            return -3
        for num, root in enumerate(self.roots):
            if node is root:
                return 0 if tree is None or num == tree else -2
        return self.ident.get(id(node), -1)

    # -- building ------------------------------------------------------------------------------
    def build(self, tree, shape):
        """Make a tree of the given shape (a stimulus of MC_UdTree): words are 1..n in order."""
        root = self.roots[tree]
        off = self.fresh
        n = len(shape['p'])
        for k in range(1, n + 1):
            self.add(root.create_child(form='w%d' % (off + k)), off + k)
        for k in range(1, n + 1):
            # only edges of the final tree and edges to the root exist on the way, so there is never a cycle
            if shape['p'][k - 1] != 0:
                self.node[off + k].parent = self.node[off + shape['p'][k - 1]]
        deps = {x: d for x, d in shape.get('d', [])}
        for ident, major, minor in shape.get('e', []):
            host = self.node[off + major] if major else self.node[off + 1]
            empty = host.create_empty_child('dep', after=bool(major), form='e')
            self.add(empty, off + ident)
            empty.deps = [{'parent': self.get(off + h if h else 0, tree), 'deprel': r} for h, r in deps.get(ident, [])]
        for ident, dep in shape.get('d', []):
            if ident <= n and dep:
                self.node[off + ident].deps = [{'parent': self.get(off + h if h else 0, tree), 'deprel': r} for h, r in dep]
        for words in shape.get('m', []):
            root.create_multiword_token([self.node[off + x] for x in words], form='M')
        for x in shape.get('s', []):
            self.node[off + x].misc['SpaceAfter'] = 'No'

    @classmethod
    def read(cls, shapes):
        """Trees of the given shapes, read from CoNLL-U; ids as in build()."""
        from udapi.core.document import Document
        world = cls(0)
        text = ''
        for shape in shapes:
            for k, parent in enumerate(shape['p'], 1):
                text += '%d\tw%d\t_\t_\t_\t_\t%d\tdep\t_\t_\n' % (k, k, parent)
            text += '\n'
        world.doc.from_conllu_string(text)
        for bundle, shape in zip(world.doc.bundles, shapes):
            root = bundle.get_tree()
            world.roots.append(root)
            for node in root.descendants:
                world.add(node)
        return world

    # -- reading back --------------------------------------------------------------------------
    def observe(self):
        return [self.observe_tree(num) for num in range(len(self.roots))]

    def observe_tree(self, num):
        root = self.roots[num]
        words = list(root.descendants)
        empties = list(root.empty_nodes)
        mwts = list(root.multiword_tokens)

        def mwt_index(node):
            mwt = node.multiword_token
            if mwt is None:
                return 0
            for index, other in enumerate(mwts, 1):
                if other is mwt:
                    return index
            return -1

        return {
            'w': [self.idof(n, num) for n in words],
            'o': [plain_int(n.ord) for n in words],
            'p': [self.idof(n.parent, num) for n in words],
            'c': [[self.idof(c, num) for c in n.children] for n in [root] + words],
            'own': [n.root is root for n in words + empties],
            'e': [[self.idof(e, num)] + ordpair(e.ord) for e in empties],
            'd': [parse_deps(n) for n in words + empties],
            'm': [[[self.idof(w, num) for w in m.words], m.misc['SpaceAfter'] == 'No', str(m.form)] for m in mwts],
            'wm': [mwt_index(n) for n in words],
            's': [self.idof(n, num) for n in words if n.misc['SpaceAfter'] == 'No'],
        }


def plain_int(value):
    return value if isinstance(value, int) and not isinstance(value, bool) and abs(value) < 10**9 else -9


def ordpair(value):
    """An empty node's ord as [major, minor], read from its text form, which is what a file gets."""
    match = re.match(r'(\d+)\.(\d+)$', str(value))
    if not match:
        return [-1, -1]
    return [min(int(match.group(1)), 10**6), min(int(match.group(2)[:7]), 10**6)]


def parse_deps(node):
    raw = node.raw_deps
    if raw == '_':
        return []
    result = []
    for item in str(raw).split('|'):
        head, sep, rel = item.partition(':')
        match = re.match(r'(\d+)(?:\.(\d+))?$', head)
        if not match or not sep:
            result.append([-1, -1, item])
        else:
            result.append([min(int(match.group(1)), 10**6), min(int((match.group(2) or '0')[:7]), 10**6), rel])
    return result


# ---------------------------------------------------------------------------------------- operations
def apply_op(world, op, args):
    """Carry out one operation; returns (exception name or '', result)."""
    tree = args['t'] - 1
    root = world.roots[tree]
    result = []
    exc = ''
    try:
        if op == 'create':
            world.add(world.get(args['n'], tree).create_child(form='w%d' % args['id']), args['id'])
        elif op == 'parent':
            if args['q'] == -3:
                new = None
            elif args['q'] == -2:
                new = world.roots[1 - tree]
            else:
                new = world.get(args['q'], tree)
            world.get(args['n'], tree).parent = new
        elif op == 'shift':
            node, ref = world.get(args['n'], tree), world.get(args['ref'], tree)
            func = {'an': node.shift_after_node, 'bn': node.shift_before_node,
                    'as': node.shift_after_subtree, 'bs': node.shift_before_subtree}[args['kind']]
            func(ref, without_children=args['alone'], skip_if_descendant=args['skip'])
        elif op == 'remove':
            if args['mode'] == '':
                world.get(args['n'], tree).remove()
            else:
                world.get(args['n'], tree).remove(children=args['mode'])
        elif op == 'flatten':
            if args['rel'] == 'root':
                root.flatten()
            else:
                root.flatten(deprel=args['rel'])
            result = [str(n.deprel) for n in root.descendants]
        elif op == 'mkempty':
            world.add(world.get(args['n'], tree).create_empty_child(args['rel'], after=args['after'], form='e'), args['id'])
        elif op == 'rmempty':
            world.get(args['n'], tree).remove()
        elif op == 'mwt':
            root.create_multiword_token([world.node[x] for x in args['ws']], form=args['form'])
        elif op == 'rmmwt':
            world.node[args['n']].multiword_token.remove()
        elif op == 'nospace':
            world.node[args['n']].misc['SpaceAfter'] = 'No' if args['v'] else ''
        elif op == 'setdeps':
            world.node[args['n']].deps = [{'parent': world.get(h, tree), 'deprel': r} for h, r in args['deps']]
        elif op == 'setraw':
            # assigned as text, which stays unparsed until somebody needs it
            heads = [(str(world.get(h, tree).ord), r) for h, r in args['deps']]
            world.node[args['n']].raw_deps = '|'.join('%s:%s' % x for x in heads) or '_'
        elif op == 'readdeps':
            result = [[world.idof(d['parent'], tree), d['deprel']] for d in world.node[args['n']].deps]
        elif op == 'steal':
            root.steal_nodes([world.node[x] for x in args['ws']])
        else:
            raise RuntimeError('unknown op ' + op)
    except RecursionError:
        exc = 'RecursionError'
    except Exception as error:  # pylint: disable=broad-except
        exc = type(error).__name__
    return exc, result


def step(world, emit, op, args, kind='step'):
    exc, result = apply_op(world, op, args)
    emit({'k': kind, 'op': op, 'a': args, 'x': exc, 'r': result, 'f': world.observe()})
    return exc


FILTERS = [(s, p, f) for s in (False, True) for p, f in ((False, False), (True, False), (False, True))]


def ask(world, tree, query):
    """The real answer to one query, in the specification's terms."""
    root = world.roots[tree]
    ids = lambda nodes: [world.idof(n, tree) for n in nodes]
    kind = query['q']
    node = world.get(query['n'], tree)
    if kind in ('children', 'descendants', 'siblings'):
        found = getattr(node, kind)
        if query['self'] or query['prec'] or query['foll']:
            kwargs = {k: True for k, v in (('add_self', query['self']), ('preceding_only', query['prec']),
                                           ('following_only', query['foll'])) if v}
            found = found(**kwargs)
        return ids(found)
    if kind == 'isdesc':
        return bool(node.is_descendant_of(world.get(query['b'], tree)))
    if kind == 'leaf':
        return bool(node.is_leaf())
    if kind == 'prev':
        return world.idof(node.prev_node, tree)
    if kind == 'next':
        return world.idof(node.next_node, tree)
    if kind == 'precedes':
        return bool(node.precedes(world.get(query['b'], tree)))
    if kind == 'lt':
        return bool(node < world.get(query['b'], tree))
    if kind == 'nonproj':
        return bool(node.is_nonprojective())
    if kind == 'gap':
        return bool(node.is_nonprojective_gap())
    if kind == 'treelet':
        from udapi.core.node import find_minimal_common_treelet
        top, added = find_minimal_common_treelet(*[world.get(x, tree) for x in query['b']])
        return [world.idof(top, tree), ids(list(added))]
    if kind in ('dir', 'edge', 'depth', 'p_ord', 'l_ord', 'r_ord', 'c_ord'):
        return node.get_attrs([kind])
    if kind == 'nchildren':
        return node.get_attrs(['children'])
    if kind == 'nsiblings':
        return node.get_attrs(['siblings'])
    if kind == 'interleaved':
        return ids(root.descendants_and_empty)
    if kind == 'nodes':
        return ids(root.bundle.nodes)
    if kind == 'unordered':
        return ids(node.unordered_descendants())
    if kind == 'tokens':
        return [['m', ids(x.words)] if x.is_mwt() else ['w', [world.idof(x, tree)]] for x in root.token_descendants]
    if kind == 'range':
        match = re.match(r'(\d+)-(\d+)$', str(node.multiword_token.ord_range))
        return [int(match.group(1)), int(match.group(2))] if match else []
    raise RuntimeError('unknown query ' + kind)


def query_step(world, emit, tree, queries, kind='step'):
    out = []
    for query in queries:
        query = dict(query)
        try:
            query['r'] = ask(world, tree, query)
        except Exception as error:  # pylint: disable=broad-except
            query['r'] = ['raised', type(error).__name__]
        if query['q'] in ('treelet', 'range', 'unordered', 'tokens') and query['r'] and query['r'][0] == 'raised':
            query['r'] = {'treelet': [-9, []], 'range': [-9], 'unordered': [-9], 'tokens': [['x', [-9]]]}[query['q']]
        out.append(query)
    emit({'k': kind, 'op': 'queries', 'a': {'t': tree + 1}, 'x': '', 'qs': out, 'f': world.observe()})


def all_queries(world, tree, rng=None, limit=None):
    root = world.roots[tree]
    words = [world.idof(n, tree) for n in root.descendants]
    nodes = [0] + words
    qs = [{'q': k, 'n': 0} for k in ('tokens', 'interleaved', 'nodes')]
    for n in nodes:
        for s, p, f in FILTERS:
            qs.append({'q': 'children', 'n': n, 'self': s, 'prec': p, 'foll': f})
            qs.append({'q': 'descendants', 'n': n, 'self': s, 'prec': p, 'foll': f})
            if n:
                qs.append({'q': 'siblings', 'n': n, 'self': s, 'prec': p, 'foll': f})
        qs += [{'q': k, 'n': n} for k in ('leaf', 'prev', 'next', 'unordered', 'c_ord', 'gap')]
        if n:
            qs += [{'q': k, 'n': n} for k in ('nonproj', 'dir', 'edge', 'depth', 'p_ord', 'l_ord', 'r_ord',
                                             'nchildren', 'nsiblings')]
            if world.node[n].multiword_token:
                qs.append({'q': 'range', 'n': n})
        for m in nodes:
            qs += [{'q': k, 'n': n, 'b': m} for k in ('isdesc', 'precedes', 'lt')]
    if rng is not None and limit is not None and len(qs) > limit:
        # the tree-wide ones always, a sample of the rest
        qs = qs[:3] + rng.sample(qs[3:], limit - 3)
    if words:
        import itertools
        if rng is None:
            combos = [list(c) for size in (1, 2, 3) for c in itertools.permutations(words, size)]
        else:
            combos = [rng.sample(words, min(len(words), rng.choice((2, 2, 3, 3, 4, 5)))) for _ in range(12)]
        qs += [{'q': 'treelet', 'n': 0, 'b': c} for c in combos]
    return qs


# ------------------------------------------------------------------------------- exhaustive replaying
def shape_ops(shape, focus):
    """All operations the specification talks about, on a tree of the given shape."""
    n, m = len(shape['p']), len(shape.get('e', []))
    words, empties = list(range(1, n + 1)), [x[0] for x in shape.get('e', [])]
    ops = []
    new = n + 500
    if 'create' in focus:
        ops += [('create', {'n': q, 'id': new}) for q in [0] + words]
        ops += [('flatten', {'rel': 'root'}), ('flatten', {'rel': 'dep:x'})]
    if 'parent' in focus:
        ops += [('parent', {'n': x, 'q': q}) for x in words for q in [0, -3] + words + empties]
        ops += [('parent', {'n': x, 'q': q}) for x in [0] + empties for q in [0] + words]
    if 'shift' in focus:
        ops += [('shift', {'n': x, 'kind': k, 'ref': r, 'alone': alone, 'skip': skip})
                for x in words for k in KINDS for r in [0] + words for alone in (False, True)
                for skip in ((False, True) if focus['shift'] == 'full' else (False,))]
        ops += [('shift', {'n': 0, 'kind': k, 'ref': r, 'alone': alone, 'skip': False})
                for k in KINDS for r in words for alone in (False, True) if focus['shift'] == 'full']
    if 'remove' in focus:
        ops += [('remove', {'n': x, 'mode': mode}) for x in words for mode in ('', 'rehang', 'warn', 'rehang_warn')]
    if 'empty' in focus:
        ops += [('mkempty', {'n': x, 'after': a, 'rel': 'nsubj', 'id': new}) for x in words for a in (False, True)]
        ops += [('rmempty', {'n': x}) for x in empties]
    if 'mwt' in focus:
        ops += [('mwt', {'ws': list(range(i, j + 1)), 'form': 'N'}) for i in words for j in words if i < j]
        ops += [('rmmwt', {'n': x}) for x in words if any(x in ws for ws in shape.get('m', []))]
        ops += [('nospace', {'n': x, 'v': v}) for x in words for v in (False, True)]
    if 'deps' in focus:
        ops += [('setdeps', {'n': x, 'deps': [[h, 'a:b'], [0, 'root']]}) for x in words + empties for h in words + empties]
    return [(op, dict(args, t=1)) for op, args in ops]


def torn(shape, op, args):
    """Would the operation leave a multi-word token with other words in between?  (No promise is made then.)"""
    return bool(shape.get('m')) and op == 'shift'


def run_shape(case, emit):
    shape, focus = case['shape'], case['focus']
    world = World()
    world.build(0, shape)
    emit({'k': 'init', 'f': world.observe()})
    if focus.get('queries'):
        query_step(world, emit, 0, all_queries(world, 0), kind='fork')
    for op, args in shape_ops(shape, focus):
        world = World()
        world.build(0, shape)
        step(world, emit, op, args, kind='fork')


def shape_cases(focus):
    def cases(tier, seed, stim):
        stim = sorted(stim, key=lambda s: json.dumps(s, sort_keys=True))
        # an empty node needs a word to be created from
        return [{'shape': s, 'focus': focus} for s in stim if s['p'] or not s.get('e')]
    return cases


# --------------------------------------------------------------------------------- random histories
RELS = ['nsubj', 'obj', 'conj:and', 'acl:relcl:x', 'nmod:v:acc']


def random_shape(rng, n, proj=False):
    parents = [0] * n
    order = list(range(1, n + 1))
    rng.shuffle(order)
    placed = []
    style = rng.random()
    for x in order:
        if not placed or rng.random() < 0.12:
            parents[x - 1] = 0
        elif style < 0.3:
            parents[x - 1] = placed[-1] if rng.random() < 0.7 else rng.choice(placed)
        elif style < 0.5:
            parents[x - 1] = placed[0] if rng.random() < 0.6 else rng.choice(placed)
        else:
            parents[x - 1] = rng.choice(placed)
        placed.append(x)
    return {'p': parents}


def run_history(case, emit):
    """A random history; the weights say which operations it consists of."""
    rng = random.Random(case['seed'])
    weights = case['weights']
    two = case.get('trees', 1) == 2
    world = World(2 if two else 1)
    nmax = case['n']
    shapes = [random_shape(rng, rng.randint(max(1, nmax // 2), nmax))]
    if two:
        shapes.append(random_shape(rng, rng.randint(1, max(1, nmax // 2))))
    if rng.random() < .5:
        world = World.read(shapes)
    else:
        for tree, shape in enumerate(shapes):
            world.build(tree, shape)
    emit({'k': 'init', 'f': world.observe()})
    names, probs = zip(*sorted(weights.items()))
    for _ in range(case['steps']):
        tree = rng.randrange(len(world.roots))
        root = world.roots[tree]
        words = [world.idof(n, tree) for n in root.descendants]
        empties = [world.idof(n, tree) for n in root.empty_nodes]
        if min(words + empties, default=1) < 1:
            break                            # the tree is broken already; the log says so
        others = []
        if two:
            others = [world.idof(n, 1 - tree) for n in world.roots[1 - tree].descendants]
            if min(others, default=1) < 1:
                break
        op = rng.choices(names, probs)[0]
        new = world.fresh + 1
        mwts = list(root.multiword_tokens)
        inside = {world.idof(w, tree) for m in mwts for w in m.words}
        pick = lambda seq: rng.choice(seq)
        args = None
        if op == 'create' and len(words) < nmax + 4:
            args = {'n': pick([0] + words), 'id': new}
        elif op == 'parent' and words:
            q = pick([0] + words + words)
            if rng.random() < case.get('bad', 0.15):
                q = pick([-3] + empties + ([-2] + others if two else []))
            args = {'n': pick(words), 'q': q}
            if rng.random() < case.get('bad', 0) * .2:
                args = {'n': pick([0] + empties), 'q': pick([0] + words)}
        elif op == 'shift' and words:
            args = {'n': pick(words), 'kind': pick(KINDS), 'ref': pick([0] + words * 2), 'alone': rng.random() < .4,
                    'skip': rng.random() < .2}
            if rng.random() < case.get('bad', 0) * .2:
                args['n'], args['ref'], args['skip'] = 0, pick(words), False
            elif inside and not shift_keeps_tokens(world, tree, args):
                args = None
        elif op == 'remove' and len(words) > 2:
            args = {'n': pick(words), 'mode': pick(['', 'rehang', 'rehang', 'warn', 'rehang_warn'])}
        elif op == 'flatten':
            args = {'rel': pick(['root', 'dep'])}
        elif op == 'mkempty' and words and len(empties) < case.get('emax', 14):
            host = pick(words)
            if case.get('crowd') and rng.random() < .7:
                host = words[min(len(words) - 1, case['crowd'] % len(words))]
            args = {'n': host, 'after': rng.random() < .7, 'rel': pick(RELS), 'id': new}
        elif op == 'rmempty' and empties:
            args = {'n': pick(empties)}
        elif op == 'mwt' and len(words) > 1:
            i = rng.randrange(len(words) - 1)
            j = min(len(words), i + rng.choice((2, 2, 2, 3, 3, 4)))
            args = {'ws': words[i:j], 'form': 'M%d' % new}
            # dissolving a token that reaches beyond the new one is part of the test
        elif op == 'rmmwt' and inside:
            args = {'n': pick(sorted(inside))}
        elif op == 'nospace' and words:
            args = {'n': pick(words), 'v': rng.random() < .7}
        elif op in ('setdeps', 'setraw') and words:
            heads = [0] + words + empties + empties
            count = rng.choice((1, 1, 2, 3))
            args = {'n': pick(words + empties), 'deps': [[pick(heads), pick(RELS)] for _ in range(count)]}
        elif op == 'readdeps' and words:
            args = {'n': pick(words + empties)}
        elif op == 'steal' and two and others:
            ws = others if rng.random() < .25 else rng.sample(others, rng.randint(1, len(others)))
            args = {'ws': ws, 'src': 2 - tree}
            if rng.random() < .1 and words:
                args['ws'] = ws + [pick(words)]
                if args['ws'][0] in words:
                    args = None
        elif op == 'queries':
            query_step(world, emit, tree, all_queries(world, tree, rng, case.get('queries', 60)))
            continue
        if args is None:
            continue
        args['t'] = tree + 1
        step(world, emit, op, args)


def shift_keeps_tokens(world, tree, args):
    """Would every multi-word token still be contiguous?  Decided on the order alone, with our own arithmetic."""
    root = world.roots[tree]
    words = [world.idof(n, tree) for n in root.descendants]
    parent = {world.idof(n, tree): world.idof(n.parent, tree) for n in root.descendants}

    def below(x, top):
        seen = 0
        while x in parent and seen <= len(words):
            x = parent[x]
            seen += 1
            if x == top:
                return True
        return False
    n, ref = args['n'], args['ref']
    moving = {n} if args['alone'] else {n} | {x for x in words if below(x, n)}
    if not args['alone'] and ref and below(ref, n):
        return True
    if args['kind'] in ('bn', 'bs') and ref == 0:
        return True
    pos = {x: k for k, x in enumerate(words, 1)}
    pos[0] = 0
    span = [pos[ref]] + ([pos[x] for x in words if (ref == 0 or below(x, ref)) and x != n] if args['kind'] in ('as', 'bs') else [])
    at = max(span) + 1 if args['kind'] in ('an', 'as') else min(span)
    new = [x for x in words[:max(0, at - 1)] if x not in moving] + [x for x in words if x in moving] \
        + [x for x in words[max(0, at - 1):] if x not in moving]
    place = {x: k for k, x in enumerate(new)}
    for mwt in root.multiword_tokens:
        spots = sorted(place[world.idof(w, tree)] for w in mwt.words if world.idof(w, tree) in place)
        if spots and spots[-1] - spots[0] + 1 != len(spots):
            return False
    return True


def history_cases(weights, quick, thorough, steps=25, sizes=(3, 5, 8, 12, 16), trees=1, **extra):
    def cases(tier, seed, stim):
        rng = random.Random('%s/%s' % (seed, sorted(weights.items())))
        count = thorough if tier == 'thorough' else quick
        out = []
        for num in range(count):
            case = {'seed': rng.randrange(1 << 30), 'weights': weights, 'n': sizes[num % len(sizes)], 'steps': steps}
            if trees == 2:
                case['trees'] = 2
            for key, value in extra.items():
                case[key] = rng.choice(value) if isinstance(value, (list, tuple)) else value
            out.append(case)
        return out
    return cases


def mc(invs, quick, thorough, **kw):
    conf = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s EmitInv\nCONSTANTS MaxW=%d MaxE=%d MaxM=%d MaxD=%d Emit=TRUE\n'
    return [dict(module='MC_UdTree', cfg=conf % ((invs,) + quick), thorough_cfg=conf % ((invs,) + thorough), **kw)]


ALWAYS = r'did-not-return|uninterpretable'
WF = ALWAYS + r'|wf:|[a-z]+:unsound'
HIST = {'create': 3, 'parent': 5, 'shift': 4, 'remove': 2, 'flatten': .1, 'mkempty': .6, 'rmempty': .3,
        'mwt': .4, 'rmmwt': .1}
EDITS = r'(create|parent|shift|remove|flatten|steal)'
ALLMC = 'Inv ShiftInv RemoveInv ProjInv TokenInv TreeletInv'

PARTS = [
    # T01: every edit leaves the specified tree
    Part('integrity-all', 'Trace_UdTree', run_shape,
         shape_cases({'create': 1, 'parent': 1, 'shift': 1, 'remove': 1}),
         mc=mc('Inv', (4, 0, 0, 0), (5, 0, 0, 0)), clauses=WF + '|' + EDITS + r':(w|p|raised|frame|deprel|state|skip)'),
    Part('integrity-hist', 'Trace_UdTree', run_history,
         history_cases(HIST, 160, 3000, steps=30),
         clauses=WF + '|' + EDITS + r':(w|p|raised|frame|deprel|state|skip)|(mkempty|rmempty|mwt|rmmwt):(w|p|raised|frame)'),
    Part('integrity-steal', 'Trace_UdTree', run_history,
         history_cases({'steal': 3, 'create': 3, 'parent': 3, 'shift': 1, 'remove': 1, 'flatten': .1, 'mwt': .3},
                       120, 2000, steps=20, trees=2),
         clauses=WF + '|' + EDITS + r':(w|p|raised|frame|deprel|state|skip)'),
    # T02: what must not be done is refused and leaves no trace
    Part('refusal-all', 'Trace_UdTree', run_shape, shape_cases({'parent': 1, 'shift': 'full'}),
         mc=mc('Inv', (3, 1, 0, 0), (4, 1, 0, 0)), clauses=ALWAYS + r'|refused|(parent|shift):(state|skip|raised)|wf'),
    Part('refusal-hist', 'Trace_UdTree', run_history,
         history_cases({'parent': 6, 'shift': 3, 'create': 1, 'remove': .3, 'mkempty': .4, 'setdeps': .3, 'mwt': .2},
                       120, 2000, steps=25, trees=2, bad=.5), clauses=ALWAYS + r'|refused|(parent|shift|steal):(state|skip|raised)|wf'),
    Part('refusal-steal', 'Trace_UdTree', run_history,
         history_cases({'parent': 3, 'shift': 2, 'create': 1, 'remove': .3, 'steal': 3, 'mwt': .2},
                       60, 1000, steps=20, trees=2, bad=.5), clauses=ALWAYS + r'|refused|(parent|shift|steal):(state|skip|raised)|wf'),
    # T03: word order
    Part('order-all', 'Trace_UdTree', run_shape, shape_cases({'shift': 'full'}),
         mc=mc('Inv ShiftInv', (4, 0, 0, 0), (5, 0, 0, 0)), clauses=WF + r'|shift:(w|p|raised|frame|skip)|refused:shift'),
    Part('order-hist', 'Trace_UdTree', run_history,
         history_cases({'shift': 10, 'parent': 4, 'create': .5, 'remove': .2}, 160, 4000, steps=40, sizes=(4, 6, 9, 13, 18)),
         clauses=WF + r'|shift:(w|p|raised|frame|skip)|refused:shift'),
    # T04: removal
    Part('remove-all', 'Trace_UdTree', run_shape, shape_cases({'remove': 1}),
         mc=mc('Inv RemoveInv', (4, 0, 0, 0), (5, 0, 0, 0)), clauses=WF + r'|wf|remove:'),
    Part('remove-rich', 'Trace_UdTree', run_shape, shape_cases({'remove': 1}),
         mc=mc('Inv RemoveInv', (3, 1, 1, 0), (3, 2, 1, 0)), clauses=WF + r'|wf|remove:'),
    Part('remove-hist', 'Trace_UdTree', run_history,
         history_cases({'remove': 6, 'parent': 3, 'create': 5, 'shift': 1, 'mkempty': 3, 'setdeps': 2, 'mwt': 2, 'nospace': 1},
                       200, 4000, steps=40, sizes=(5, 8, 12, 18)), clauses=WF + r'|wf|remove:'),
    # T05: empty nodes
    Part('empty-all', 'Trace_UdTree', run_shape, shape_cases({'empty': 1, 'shift': 1, 'remove': 1}),
         mc=mc('Inv RemoveInv', (3, 1, 0, 0), (3, 2, 0, 0)), clauses=ALWAYS + r'|wf-e|(mkempty|rmempty):|(shift|remove):(e|e-minor|raised)'),
    Part('empty-hist', 'Trace_UdTree', run_history,
         history_cases({'mkempty': 6, 'rmempty': 2, 'shift': 3, 'remove': 1.5, 'create': 1.5, 'parent': 1, 'queries': .7}, 200, 4000,
                       steps=40, crowd=(0, 1, 2, 3), queries=8),
         clauses=ALWAYS + r'|wf-e|(mkempty|rmempty):|(shift|remove|create|parent):(e|e-minor|raised)|query:interleaved'),
    # T06: enhanced dependencies
    Part('deps-all', 'Trace_UdTree', run_shape, shape_cases({'deps': 1, 'shift': 1, 'remove': 1, 'empty': 1}),
         mc=mc('Inv', (2, 1, 0, 1), (2, 2, 0, 1)), clauses=ALWAYS + r'|wf-d|[a-z]+:d$|(setdeps|setraw|readdeps):'),
    Part('deps-hist', 'Trace_UdTree', run_history,
         history_cases({'setdeps': 4, 'setraw': 3, 'readdeps': 2, 'shift': 4, 'remove': 2, 'mkempty': 3, 'rmempty': 2, 'parent': 1, 'create': 2},
                       200, 4000, steps=40, sizes=(4, 6, 9, 13)), clauses=ALWAYS + r'|wf-d|[a-z]+:d$|(setdeps|setraw|readdeps):'),
    # T07: multi-word tokens
    Part('mwt-all', 'Trace_UdTree', run_shape, shape_cases({'mwt': 1, 'remove': 1, 'queries': 1}),
         mc=mc('Inv TokenInv', (3, 0, 1, 0), (4, 0, 1, 0)),
         clauses=ALWAYS + r'|wf-m|[a-z]+:[ms]$|(mwt|rmmwt|nospace):|query:(tokens|range)'),
    Part('mwt-hist', 'Trace_UdTree', run_history,
         history_cases({'mwt': 6, 'rmmwt': 1, 'nospace': 3, 'shift': 5, 'remove': 2, 'create': 2, 'parent': 2, 'queries': 2, 'steal': .5},
                       200, 4000, steps=40, sizes=(4, 7, 11, 15), queries=20),
         clauses=ALWAYS + r'|wf-m|[a-z]+:[ms]$|(mwt|rmmwt|nospace):|query:(tokens|range)'),
    Part('mwt-steal', 'Trace_UdTree', run_history,
         history_cases({'mwt': 5, 'rmmwt': 1, 'nospace': 2, 'steal': 3, 'shift': 2, 'queries': 1, 'create': 2}, 80, 1500, steps=25, trees=2,
                       sizes=(4, 7, 11), queries=10),
         clauses=ALWAYS + r'|wf-m|[a-z]+:[ms]$|(mwt|rmmwt|nospace):|query:(tokens|range)'),
    # T08: queries
    Part('query-all', 'Trace_UdTree', run_shape, shape_cases({'queries': 1}),
         mc=mc('Inv ProjInv TreeletInv', (4, 0, 0, 0), (5, 0, 0, 0)), clauses=ALWAYS + r'|query:'),
    Part('query-hist', 'Trace_UdTree', run_history,
         history_cases({'queries': 4, 'parent': 3, 'shift': 3, 'create': 1, 'remove': 1, 'mkempty': .5}, 120, 2500, steps=16,
                       sizes=(5, 8, 12, 16), queries=110), clauses=ALWAYS + r'|query:'),
]
