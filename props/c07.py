''' C07: mappings act on homology linearly, functorially and consistently. '''
from .common import *
from .c04 import curves, the_curve
from .c05 import arcs, the_arc

PROPERTY = 'C07'
WITNESSES = 80
TECHNIQUE = 'symbolic execution of the real apply_homology / homology_matrix code over arbitrary integer edge vectors and symbolic twist powers; oracles: the class of each unflipped edge is kept and the lattice of cocycles; z3 decides every equality of classes'
BOUNDS = 'homology classes: unbounded integer vectors; twist and half-twist powers: unbounded integers against each edge class (which generate), and |power| <= 4 against all classes; the listed triangulations, moves and words'

def HC(S, v): return curver().kernel.HomologyClass(S, v)
def edge_vector(S, e): return [(e.sign() if i == e.index else 0) for i in range(S.zeta)]
def add(x, y): return [p + q for p, q in zip(x, y)]

def flips(ctx, T, edges, multi):
    ''' A (multi)flip keeps the class of every edge but the flipped ones, which become the other way round their old triangle. '''
    S = tri(T)
    f = once(('flip', T, tuple(edges), multi), lambda: S.encode_multiflip(edges) if multi else S.encode_flip(edges[0]))
    U = f.target_triangulation
    h = ctx.ints('h', S.zeta)
    image = f(HC(S, h))
    ctx.check(image.triangulation == U, 'image on the target')
    expected = list(h)
    for label in edges:
        corner = S.corner_lookup[label]
        e, a, b = corner
        w = h[e.index] * e.sign()
        expected[e.index] = 0
        expected = add(expected, add([-w * x for x in edge_vector(S, a)], [-w * x for x in edge_vector(S, b)]))
    ctx.check(hom_equal(U, list(image), expected), 'the image is the same class written in the new edges')
    fm = once(('flip fm', T, tuple(edges), multi), lambda: f.flip_mapping())
    if fm.target_triangulation != U: ctx.fail('flips lead elsewhere')
    ctx.check(bool(fm(HC(S, h)) == image), 'acts as its flips')
    laws(ctx, f, h)

def mapping(T, word): return once(('word', T, str(word)), lambda: tri(T).encode(decode(T, word)))

def decode(T, word): return [tuple(x) if isinstance(x, list) else x if not isinstance(x, dict) else set(x['multi']) if 'multi' in x else {int(k): v for k, v in x.items()} for x in word]

def laws(ctx, f, h):
    S, U = f.source_triangulation, f.target_triangulation
    x = HC(S, h)
    image = f(x)
    g = ctx.ints('g', S.zeta)
    ctx.check(hom_equal(U, list(f(HC(S, add(h, g)))), add(list(image), list(f(HC(S, g))))), 'additive')
    ms = ctx.ints('m', S.num_triangles)
    v = list(h)
    for t, m in zip(S, ms):
        for e in t: v[e.index] = v[e.index] + m * e.sign()
    ctx.check(hom_equal(U, list(f(HC(S, v))), list(image)), 'respects equality of classes')
    ctx.check(bool(f.inverse()(image) == x), 'the inverse undoes it')
    ctx.check(bool(f(f.inverse()(HC(U, h))) == HC(U, h)), 'undoes the inverse')
    M = once(('matrix', id(f)), lambda: (f, f.homology_matrix()))[1]
    sb, tb = S.homology_basis(), U.homology_basis()
    coords = [sum((p * q for p, q in zip(x.canonical(), b)), 0) for b in sb]
    ours = [sum((int(m) * c for m, c in zip(row, coords)), 0) for row in M]
    theirs = [sum((p * q for p, q in zip(image.canonical(), b)), 0) for b in tb]
    ctx.check_eq(ours, theirs, 'homology matrix')

def word(ctx, T, word):
    f = mapping(T, word)
    S = tri(T)
    h = ctx.ints('h', S.zeta)
    laws(ctx, f, h)
    fm = once(('fm', T, str(word)), lambda: f.flip_mapping())
    ctx.check(bool(fm(HC(S, h)) == f(HC(S, h))), 'acts as its flips')
    # One term at a time.
    terms = decode(T, word)
    x, V = HC(S, h), S
    for i in reversed(range(len(terms))):
        term = once(('term', T, str(word), i), lambda: V.find_isometry(S, terms[i]).encode() if isinstance(terms[i], dict) else V.encode([terms[i]]))
        x, V = term(x), term.target_triangulation
    ctx.check(bool(x == f(HC(S, h))), 'composite')
    if f.source_triangulation == f.target_triangulation:
        for p in (2, 3, -1, -2, 0):
            y = HC(S, h)
            for _ in range(abs(p)): y = f(y) if p > 0 else f.inverse()(y)
            ctx.check(bool(f(HC(S, h), power=p) == y), 'power by call')
            ctx.check(bool(once(('pow', T, str(word), p), lambda: f**p)(HC(S, h)) == y), 'power')

def composite(ctx, T, w1, w2):
    g = mapping(T, w1)
    f = once(('second', T, str(w1), str(w2)), lambda: g.target_triangulation.encode(decode(T, w2)))
    S = tri(T)
    h = HC(S, ctx.ints('h', S.zeta))
    ctx.check(bool((f * g)(h) == f(g(h))), 'composite of the actions')
    ctx.check(bool((f * g).inverse()(f(g(h))) == h), 'inverse of a composite')

def maker(T, c): return the_arc(T, c).encode_halftwist if isinstance(c, int) else the_curve(T, c).encode_twist

def power(ctx, T, c, k):
    ''' A concrete power against all classes. '''
    S = tri(T)
    f = once(('power', T, str(c), k), lambda: maker(T, c)(k))
    fm = once(('power flips', T, str(c), k), lambda: f.flip_mapping())
    h = HC(S, ctx.ints('h', S.zeta))
    ctx.check(bool(f(h) == fm(h)), 'acts as its flips')
    laws(ctx, f, list(h))
    if not isinstance(c, int): multiple(ctx, S, c, f(h) - h)

def multiple(ctx, S, c, d):
    ''' d is a multiple of the class of the curve c (which is parallel to an edge from a vertex to itself). '''
    a = once(('parallel', tuple(S.signature), tuple(c)), lambda: S(list(c)).parallel().index)
    unit = [int(i == a) for i in range(S.zeta)]
    ps = [(sum((x * y for x, y in zip(phi, d)), 0), sum((x * y for x, y in zip(phi, unit)), 0)) for phi in cocycles(S)]
    ctx.check(sand(*[p * v == q * u for p, u in ps for q, v in ps]), 'adds a multiple of the curve')

def powers(ctx, T, c, index, side):
    ''' All powers against an edge class: T^k == T T^(k-1); and T^k - 1 == k (T - 1) for twists. '''
    S = tri(T)
    k = ctx.int('k')
    ctx.assume(k >= 2 if side > 0 else k <= -2)
    one = once(('power', T, str(c), side), lambda: maker(T, c)(side))
    h = HC(S, [int(i == index) for i in range(S.zeta)])
    image = maker(T, c)(k)(h)
    ctx.check(bool(image == one(maker(T, c)(k - side)(h))), 'F^k == F F^(k-1)')
    ctx.check(bool(maker(T, c)(k).inverse()(image) == h), 'inverse of a power')
    if not isinstance(c, int):
        d = [x - y for x, y in zip(one(h), h)]
        ctx.check(hom_equal(S, list(image), [x + side * k * y for x, y in zip(h, d)]), 'adds k times as much')

def parity(ctx, T, c, k, index):
    ''' The mod 2 intersection pairing of multicurves with classes is preserved. '''
    S = tri(T)
    f = once(('power', T, str(c), k), lambda: maker(T, c)(k)) if c is not None else mapping(T, k)
    l = sym_lamination(ctx, S, kind='curves')
    h = HC(S, [int(i == index) for i in range(S.zeta)])
    before = l(index)
    after = sum((x * y for x, y in zip(f(h), f(l))), 0)
    ctx.check((before - after) % 2 == 0, 'pairing with multicurves mod 2')

WORDS = {  # Words in flips, relabellings (back), twists and half-twists.
    'S11': [[0], [{'0': 1}], [{'0': 2}, {'0': 1}], [{'0': ~1}], [0, 1], [1, {'0': 2}, 0]],
    'S03': [[0], [0, {'0': 0}], [[0, 1]], [[1, 2], [0, -3], [2, 1]]],
    'S12a': [[5, 3], [[5, 2], [3, 1]], [[3, -1], 1, 4]],
    'S12e': [[[0, 1], [3, 1]], [0, 2, [2, 3]]],
    'S04b': [[[0, 1], [1, 2]], [3, 1]], 'S04c': [[[1, 1]], [0, 4]],
    'S05a': [[2, 7]], 'S21a': [[0, 3]], 'S21b': [[4]], 'S13a': [[6, 2]], 'S13b': [[4, 6]],
    'S11+S11': [[0, 3], [3, {'0': 1, '3': 4}]],
    'S11+S03': [[0, 4]],
    }

def obligations(tier):
    out = []
    quick = tier == 'quick'
    limit = 60 if quick else 600
    def add(name, h, params, bound='all classes', must=True): out.append(Obligation(name, h, params, timeout=limit, bound=bound, must=must))
    for T in SMALL + MEDIUM + LARGE + DISCONNECTED:
        S = tri(T)
        flippable = [e.label for e in S.edges if S.is_flippable(e)]
        for e in flippable if not quick or S.zeta == 3 else flippable[::3 if S.zeta == 6 else 5]: add('%s flip %d' % (T, e), 'flips', {'T': T, 'edges': [e], 'multi': False})
        pairs = []
        for a in flippable:
            for b in flippable:
                if norm(a) < norm(b) and not ({t for x in (a, ~a) for t in [S.triangle_lookup[x]]} & {t for x in (b, ~b) for t in [S.triangle_lookup[x]]}): pairs.append([a, b])
        for p in [[flippable[0]]] + (pairs[::max(1, len(pairs) // 3)] if quick else pairs): add('%s multiflip %s' % (T, p), 'flips', {'T': T, 'edges': p, 'multi': True})
        for w in WORDS.get(T, []):
            add('%s word %s' % (T, w), 'word', {'T': T, 'word': w})
        if len(flippable) > 1:
            w1 = [flippable[-1]]
            U = S.encode(w1).target_triangulation
            w2 = [e.label for e in U.edges if U.is_flippable(e)][:1]
            add('%s composite %s %s' % (T, w1, w2), 'composite', {'T': T, 'w1': w1, 'w2': w2})
        if T in DISCONNECTED: continue
        movers = curves(T)[:2 if quick else 6] + arcs(T)[:1 if quick else None]
        for c in movers:
            for k in (1, -1, 2, -3) if quick else (1, -1, 2, -2, 3, -3, 4, -4): add('%s %s power %d' % (T, c, k), 'power', {'T': T, 'c': c, 'k': k})
            for index in range(S.zeta):
                if quick and (S.zeta > 6 and index % 4 or S.zeta == 6 and index % 2): continue
                for side in (1, -1): add('%s %s all powers %+d edge %d' % (T, c, side, index), 'powers', {'T': T, 'c': c, 'index': index, 'side': side}, 'all k')
            if S.zeta <= 6:
                for index in range(S.zeta):
                    if quick and (index % 3 or S.zeta == 6 and (c is not movers[0] or T.startswith('S04'))): continue
                    for k in (1, -1) if quick else (1, -1, 2, -2): add('%s %s power %d parity edge %d' % (T, c, k, index), 'parity', {'T': T, 'c': c, 'k': k, 'index': index}, 'all multicurves', must=False)
        for w in WORDS.get(T, [])[:1]:
            if S.zeta <= (3 if quick else 6): add('%s word %s parity' % (T, w), 'parity', {'T': T, 'c': None, 'k': w, 'index': 0}, 'all multicurves', must=False)
    return out

def norm(x): return max(x, ~x)
