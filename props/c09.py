''' C09: geometric intersection numbers are invariant, additive and homogeneous. '''
from .common import *
from .c13 import corner, peripheral_curve, vertices
from .c07 import decode

PROPERTY = 'C09'
WITNESSES = 120
TECHNIQUE = 'symbolic execution of the real intersection code (shortening of the listed lamination, its action on a lamination with symbolic weights, and the counting of its peripheral, arc and curve components); oracles: weights on edges after flips, ends of arcs at a vertex, the numbers for each pair of components, and invariance under moves; z3 decides each equality'
BOUNDS = 'the second lamination: unbounded weights (arbitrary integral laminations, or arbitrary multicurves where more flips are needed); multiplicities of components of the first one: unbounded; the listed triangulations and words'
STUBS = ['in the obligations about all multicurves flips act by max(a + c, b + d) - e (the lemma obligations decide that the real flips agree)', 'maximin is the maximum of the minima (C19 decides this)']

class summary:
    def __init__(self, kind): self.parts = ([flip_summary()] if kind == 'curves' else []) + [maximin_summary()]
    def __enter__(self):
        for part in self.parts: part.__enter__()
    def __exit__(self, *args):
        for part in self.parts: part.__exit__(*args)

def K(): return curver().kernel
def mapping(T, word): return once(('09', T, str(word)), lambda: tri(T).encode(decode(T, word)) if word else tri(T).id_encoding())

def listed(T, word):
    ''' Components which are short after the given word (seen from T): (kind, label or vertex, weights). '''
    def build():
        f = mapping(T, word)
        U, back = f.target_triangulation, f.inverse()
        out = [('arc', e.label, list(back(U.edge_arc(e)))) for e in U.positive_edges]
        seen = set()
        for e in U.edges:
            c = U.edge_curve(e)
            if U.vertex_lookup[e] == U.vertex_lookup[~e] and not c.is_peripheral() and tuple(c) not in seen:
                seen.add(tuple(c))
                out.append(('curve', e.label, list(back(c))))
        return out + [('peripheral', i, peripheral_curve(tri(T), v)) for i, v in enumerate(vertices(tri(T)))]
    return once(('09 listed', T, str(word)), build)

def component(T, word, index):
    def build():
        kind, _, v = listed(T, word)[index]
        return getattr(K(), 'Arc' if kind == 'arc' else 'Curve')(tri(T), list(v))
    return once(('09 component', T, str(word), index), build)

def second(ctx, T, kind, name='w'):
    S = tri(T)
    w = ctx.ints(name, S.zeta)
    ctx.assume(is_multicurve(S, w) if kind == 'curves' else is_integral(S, w))
    return lam(S, w, 'MultiCurve' if kind == 'curves' else 'IntegralLamination'), w

def ends(S, w, v):
    ''' The number of ends of arcs at v. '''
    total = sum((pos(-w[e.index]) for e in v), 0)  # Each edge with both ends at v leaves it twice.
    twice = sum((pos(-corner(S, w, S.corner_lookup[e][1])) for e in v), 0)
    return 2 * total + twice

def against(ctx, T, word, index, kind):
    ''' Arcs against the weight on that edge once it is one, peripheral curves against the ends. Not negative. '''
    S = tri(T)
    l, w = second(ctx, T, kind)
    what, label, v = listed(T, word)[index]
    a = component(T, word, index)
    with summary(kind):
        n = a.intersection(l)
        ctx.check(n >= 0, 'not negative')
        if what == 'arc': ctx.check_eq(n, pos(mapping(T, word)(l)(label)), 'the weight on the edge')
        elif what == 'peripheral': ctx.check_eq(2 * n, ends(S, w, vertices(S)[label]), 'the ends of arcs at the vertex')
        k = ctx.choose('k', [0, 1, 2, 5])
        with env.promote_stub(curver()): ctx.check_eq(a.intersection(k * l), k * n, 'homogeneous in the second')
        ctx.check_eq((k * a).intersection(l) if k else 0, k * n, 'homogeneous in the first')
        ctx.check_eq(a.intersection(l, l, l), 3 * n, 'several laminations')

def several(ctx, T, word, index, kind):
    ''' The intersection with several laminations is the sum. '''
    a = component(T, word, index)
    l, _ = second(ctx, T, kind, 'v')
    m, _ = second(ctx, T, kind, 'w')
    with summary(kind): ctx.check_eq(a.intersection(l, m), a.intersection(l) + a.intersection(m), 'sum over several laminations')

def invariant(ctx, T, word, index, kind, moves):
    ''' The same after moving both. '''
    a = component(T, word, index)
    f = mapping(T, moves)
    b = once(('09 moved', T, str(word), index, str(moves)), lambda: f(a))
    l, _ = second(ctx, T, kind)
    with summary(kind):
        ctx.check(b.__class__ == a.__class__, 'class')
        ctx.check_eq(b.intersection(f(l)), a.intersection(l), 'invariant')

def pairings(T, word, word2):
    ''' The intersection numbers of the components of words with the components of a system of word2, found by other means where possible:
    arcs by weights, peripheral curves by ends, and curves with curves by the real code. '''
    def build():
        S = tri(T)
        out = []
        f, g = mapping(T, word), mapping(T, word2)
        for k1, l1, v1 in listed(T, word):
            row = []
            for k2, l2, v2 in listed(T, word2):
                if k1 == 'arc': n = max(f(lam(S, v2))(l1), 0)
                elif k2 == 'arc': n = max(g(lam(S, v1))(l2), 0)
                elif k1 == 'peripheral' or k2 == 'peripheral': n = 0
                else: n = None
                row.append(n)
            out.append(row)
        return out
    return once(('09 pairing', T, str(word), str(word2)), build)

def cones(T, word):
    ''' Lists of indices of pairwise disjoint components. '''
    def build():
        f = mapping(T, word)
        parts = listed(T, word)
        arcs = [i for i, p in enumerate(parts) if p[0] == 'arc']
        out = [arcs]
        P = pairings(T, word, word)
        for i, p in enumerate(parts):
            if p[0] != 'curve': continue
            cone = [i] + [j for j in arcs if P[j][i] == 0]
            cone += [j for j, q in enumerate(parts) if q[0] == 'peripheral' and all(P[k][j] == 0 for k in cone if parts[k][0] == 'arc')]
            out.append(cone)
        return out
    return once(('09 cones', T, str(word)), build)

def bilinear(ctx, T, word, cone, word2, cone2):
    ''' Sums of disjoint components with any multiplicities against each other. '''
    S = tri(T)
    A, B = cones(T, word)[cone], cones(T, word2)[cone2]
    ps, qs = listed(T, word), listed(T, word2)
    P = pairings(T, word, word2)
    ms, ns = ctx.ints('m', len(A), lo=0), ctx.ints('n', len(B), lo=0)
    if len(A) > 2:  # At most two of the components of the first, in turn.
        keep = ctx.choose('keep', [(i, j) for i in range(len(A)) for j in range(i)])
        for i, m in enumerate(ms):
            if i not in keep: ctx.assume(m == 0)
        ms = [m if i in keep else 0 for i, m in enumerate(ms)]
    a, b = lam(S, combine([ps[i][2] for i in A], ms)), lam(S, combine([qs[j][2] for j in B], ns))
    with maximin_summary(): n = a.intersection(b)
    expected = 0
    for i, m in zip(A, ms):
        if isinstance(m, int) and m == 0: continue
        row = 0
        for j, k in zip(B, ns):
            p = P[i][j]
            if p is None: p = once(('09 curves', T, str(word), str(word2), i, j), lambda: component(T, word, i).intersection(component(T, word2, j)))
            row = row + p * k
        expected = expected + (m * row if not isinstance(row, int) or row else 0)
    ctx.check_eq(n, expected, 'bilinear in the components')

def additive(ctx, T, word, cone, kind):
    ''' Sums of disjoint components against anything. Here the first has small multiplicities. '''
    S = tri(T)
    A, ps = cones(T, word)[cone], listed(T, word)
    ms = [ctx.choose('m%d' % i, [0, 1, 3] if i < 2 else [0, 1]) for i in range(len(A))]
    l, _ = second(ctx, T, kind)
    a = once(('09 sum', T, str(word), cone, tuple(ms)), lambda: lam(S, combine([ps[i][2] for i in A], ms)))
    with summary(kind):
        expected = sum((m * component(T, word, i).intersection(l) for i, m in zip(A, ms) if m), 0)
        ctx.check_eq(a.intersection(l), expected, 'additive over disjoint components')

def lemma(ctx, T, word, moves, part): flip_lemma(ctx, needed(T, word, moves)[3*part:3*part+3])

def needed(T, word, moves):
    ''' The flips that the obligations for this word rely on. '''
    def build():
        fs = [mapping(T, word)]
        for m in moves:
            if m: fs.append(mapping(T, m))
            for i in range(len(listed(T, word))):
                x = component(T, word, i)
                fs.append((mapping(T, m)(x) if m else x).shorten()[1])
        out, seen = [], set()
        for f in fs:
            for move in flips_of(f):
                key = (tuple(move.source_triangulation.signature), str(move.package()))
                if key not in seen:
                    seen.add(key)
                    out.append(move)
        return out
    return once(('flips09', T, str(word), str(moves)), build)

WORDS = {'S11': [[], [0], [1, 0]], 'S03': [[], [0]], 'S12a': [[], [2], [3, 2]], 'S12d': [[], [1], [~4]], 'S12e': [[], [3]], 'S04b': [[], [0], [3, 0]], 'S04d': [[], [2]], 'S05a': [[], [0]], 'S21a': [[], [0]], 'S11+S03': [[], [0]]}

def obligations(tier):
    quick = tier == 'quick'
    limit = 150 if quick else 1500
    out = []
    def add(name, fn, bound, **params): out.append(Obligation(name, fn, params, timeout=limit, bound=bound))
    for T, words in WORDS.items():
        if quick and T == 'S21a': continue
        S = tri(T)
        for word in words[:2] if quick and S.zeta > 3 else words:
            try: parts = listed(T, word)
            except AssertionError: continue
            lemmas = [[]]
            for index, (kind, label, _) in enumerate(parts):
                if quick and kind == 'arc' and S.zeta > 3 and (index + len(word)) % 3: continue
                if quick and kind == 'curve' and S.zeta > 6: continue
                deep = len(word) == 0 and kind != 'curve' or S.zeta == 3 and len(word) < 2
                add('%s %s %s %s against' % (T, word, kind, label), 'against', 'all integral laminations' if deep else 'all multicurves', T=T, word=word, index=index, kind='any' if deep else 'curves')
                if S.zeta == 3 or kind == 'curve' or not quick: add('%s %s %s %s several' % (T, word, kind, label), 'several', 'all multicurves', T=T, word=word, index=index, kind='curves')
                moves = [[e.label] for e in S.edges if S.is_flippable(e)]
                if quick: moves = moves[::3] if S.zeta == 3 else moves[index % 4::7][:1 if kind != 'curve' else 2]
                for m in moves:
                    short = S.zeta == 3 and len(word) == 0 or len(word) == 0 and kind == 'peripheral'
                    add('%s %s %s %s moved by %s' % (T, word, kind, label, m), 'invariant', 'all integral laminations' if short else 'all multicurves', T=T, word=word, index=index, kind='any' if short else 'curves', moves=m)
                    if m not in lemmas: lemmas.append(m)
            count = len(needed(T, word, lemmas))
            for part in range(0, -(-count // 3), 3 if quick else 1): add('%s %s lemma %d' % (T, word, part), 'lemma', 'all multicurves', T=T, word=word, moves=lemmas, part=part)
            for cone in range(len(cones(T, word))):
                if quick and (S.zeta > 6 or S.zeta == 6 and cone == 0): continue
                if S.zeta <= 6: add('%s %s additive %d' % (T, word, cone), 'additive', 'all multicurves', T=T, word=word, cone=cone, kind='curves')
                for word2 in words[:2] if quick else words:
                    for cone2 in range(len(cones(T, word2))):
                        if quick and S.zeta > 3 and ((cone + 2 * cone2 + len(word) + len(word2)) % 7 or T == 'S04d'): continue
                        if quick and S.zeta == 3 and (cone + 2 * cone2 + len(word) + len(word2)) % 3: continue
                        add('%s bilinear %s %d %s %d' % (T, word, cone, word2, cone2), 'bilinear', 'all multiplicities', T=T, word=word, cone=cone, word2=word2, cone2=cone2)
    return out
