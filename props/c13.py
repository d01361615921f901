''' C13: peripheral and parallel parts split off exactly. '''
from .common import *

PROPERTY = 'C13'
TECHNIQUE = 'symbolic execution of the real corner weight, peripheral and parallel part code on laminations with symbolic weights; z3 decides the defining properties of each part, with corners recomputed from the weights'
BOUNDS = 'weights of arbitrary integral laminations and the number of curves added: unbounded; the listed triangulations'

def corner(S, w, e):
    ''' Twice the number of strands across the corner opposite e in its triangle, or minus twice the number of those that end there. '''
    a, b, c = [w[x.index] for x in S.corner_lookup[e]]
    a, b, c = pos(a), pos(b), pos(c)
    return site(a > b + c, 2 * (b + c - a), site(b > c + a, 2 * c, site(c > a + b, 2 * b, b + c - a)))

def corners(ctx, T):
    ''' Dual, left and right weights; the weights are recovered from them. '''
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    L = lam(S, w)
    t = ctx.choose('triangle', list(range(S.num_triangles)))
    es = S.triangles[t].edges
    dual = [L.dual_weight(e) for e in es]
    for i, e in enumerate(es):
        ctx.check_eq(2 * dual[i], corner(S, w, e), 'dual weight')
        ctx.check_eq([L.dual_weight(e.label), L.dual_weight(e, double=True), L.left_weight(e), L.right_weight(e), L.left_weight(e, double=True), L.right_weight(e.label, double=True)],
            [dual[i], 2 * dual[i], dual[(i + 1) % 3], dual[(i + 2) % 3], 2 * dual[(i + 1) % 3], 2 * dual[(i + 2) % 3]], 'left and right weights')
        ctx.check_eq(pos(w[e.index]), pos(dual[(i + 1) % 3]) + pos(dual[(i + 2) % 3]) + pos(-dual[i]), 'the weights are recovered')
    ctx.check(sor(*[sand(dual[i] >= 0, dual[j] >= 0) for i, j in [(0, 1), (1, 2), (0, 2)]]), 'strands end at one corner at most')
    ctx.check_eq(L.weight(), sum((pos(x) for x in w), 0), 'weight')
    ctx.check_eq([L(e) for e in es] + [L(~e) for e in es] + [L(e.label) for e in es], [w[e.index] for e in es] * 3, 'measure of edges')

def consistent(ctx, T):
    ''' Weights are accepted as integral exactly when the triangles can be filled in. '''
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    L = curver().kernel.Lamination(S, list(w))
    try: answer = bool(L.is_integral())
    except ValueError: answer = False
    ctx.check(siff(answer, is_integral(S, w)), 'integral')

def vertices(S): return sorted(S.vertices)

def peripheral_curve(S, v):
    out = [0] * S.zeta
    for e in v: out[e.index] += 1
    return out

def multiplicity(S, w, v):
    ''' Twice the largest number of curves around v that can be removed. '''
    return pos(smin(*[corner(S, w, S.corner_lookup[e][1]) for e in v]))

def peripheral(ctx, T):
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    L = lam(S, w)
    vs = vertices(S)
    with maximin_summary(): parts = L.peripheral_components()
    found = {vertex: (component, m) for component, (m, vertex) in parts.items()}
    ctx.check(len(found) == len(parts), 'different vertices')
    rest = list(w)
    for v in vs:
        p = peripheral_curve(S, v)
        m = multiplicity(S, w, v)
        if v in found:
            component, n = found[v]
            ctx.check(isinstance(component, curver().kernel.Curve) and component.triangulation == S and list(component) == p, 'the curve around the vertex')
            ctx.check_eq(2 * n, m, 'the largest multiple that can be removed')
            ctx.check(n > 0, 'positive')
            rest = [x - n * y for x, y in zip(rest, p)]
        else: ctx.check(m <= 0, 'none can be removed')
    with maximin_summary(): P, Q = L.peripheral(promote=False), L.non_peripheral(promote=False)
    ctx.check_eq(list(Q), rest, 'non-peripheral part')
    ctx.check_eq([x + y for x, y in zip(P, Q)], w, 'the parts add up')
    with maximin_summary(): a, b = bool(L.is_peripheral()), bool(L.is_non_peripheral())
    ctx.check(siff(a, seq(rest, [0] * S.zeta)), 'is_peripheral')
    ctx.check(siff(b, seq(rest, w)), 'is_non_peripheral')
    ctx.check(is_integral(S, rest), 'the non-peripheral part is a lamination')
    for v in vs: ctx.check(multiplicity(S, rest, v) == 0, 'nothing more can be removed')
    kinds = curver().kernel
    ctx.check(isinstance(P, kinds.MultiCurve) or not any(list(P)), 'the peripheral part is a multicurve')

def again(ctx, T):
    ''' The parts of the parts, and adding k curves around a vertex. '''
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    L = lam(S, w)
    P, Q = L.peripheral(promote=False), L.non_peripheral(promote=False)
    ctx.check(len(Q.peripheral_components()) == 0, 'nothing peripheral is left')
    ctx.check(bool(P.is_peripheral()), 'the peripheral part is peripheral')

def adding(ctx, T):
    S = tri(T)
    w, k = ctx.ints('w', S.zeta), ctx.int('k', 1)
    v = ctx.choose('vertex', vertices(S))
    ctx.assume(is_integral(S, w))
    # No arcs end at v.
    ctx.assume(sand(*[w[e.index] >= 0 for e in v]))
    c0 = [corner(S, w, S.corner_lookup[e][1]) for e in v]
    ctx.assume(sand(*[c >= 0 for c in c0]))
    p = peripheral_curve(S, v)
    A = lam(S, [x + k * y for x, y in zip(w, p)])
    with maximin_summary(): n = [m for m, vertex in A.peripheral_components().values() if vertex == v]
    ctx.check(len(n) == 1, 'found')
    ctx.check_eq(2 * n[0], smin(*c0) + 2 * k, 'raised by exactly k')

def parallel(ctx, T, index, word):
    ''' Sums of disjoint components: the parallel components are found with their multiplicities. '''
    S = tri(T)
    vectors = systems(T, word)[index]
    ms = ctx.ints('m', len(vectors), lo=0)
    w = combine(vectors, ms)
    L = lam(S, w)
    found = L.parallel_components()
    edges = once(('parallel', T), lambda: [(list(S.edge_arc(e)), e) for e in S.positive_edges] + [(list(c), e) for e in S.edges for c in [S.edge_curve(e)] if S.vertex_lookup[e] == S.vertex_lookup[~e] and not c.is_peripheral()])
    kernel = curver().kernel
    for v, m in zip(vectors, ms):
        es = [e for x, e in edges if list(x) == list(v)]
        entry = [x for x in found if list(x) == list(v)]
        if not es: ctx.check(not entry, 'not parallel to an edge')
        elif not entry: ctx.check(m == 0, 'none found')
        else:
            n, e = found[entry[0]]
            ctx.check_eq(n, m, 'multiplicity')
            ctx.check(e in es or (~e in es and min(v) < 0), 'parallel to that edge')
            ctx.check(isinstance(entry[0], kernel.Arc if min(v) < 0 else kernel.Curve), 'kind')

def reported(ctx, T, few=False):
    ''' Of any lamination: the parallel components reported are disjoint from the rest, which is a lamination without them. '''
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    if few: ctx.assume(sand(*[x >= 0 for x in w[1:]]))
    L = lam(S, w)
    with maximin_summary(): found = L.parallel_components()
    arcs = {e.index: n for x, (n, e) in found.items() if min(x) < 0}
    for e in S.positive_edges:
        if e.index in arcs: ctx.check(sand(arcs[e.index] > 0, arcs[e.index] == -w[e.index]), 'parallel arcs')
        else: ctx.check(w[e.index] >= 0, 'no parallel arcs')
    for x, (n, e) in found.items():
        if min(x) < 0: continue
        ctx.check(list(x) == list(S.edge_curve(e)) and isinstance(x, curver().kernel.Curve), 'the curve of that edge')
        v = S.vertex_lookup[e]
        i = v.index(e)
        sector = (v[i:] + v[:i])
        sector = sector[:sector.index(~e)]
        around = pos(smin(*[corner(S, w, S.corner_lookup[f][1]) for f in sector]))
        ctx.check(sand(n > 0, pos(w[e.index]) == around), 'disjoint from the lamination')
        rest = [p - n * q for p, q in zip(w, x)]
        ctx.check(is_integral(S, rest), 'what is left is a lamination')
        inner = pos(smin(*[corner(S, rest, S.corner_lookup[f][1]) for f in sector[1:]]) - pos(smin(*[corner(S, rest, S.corner_lookup[f][1]) for f in sector])))
        ctx.check(inner == 0, 'all of the copies are reported')

def obligations(tier):
    out = []
    quick = tier == 'quick'
    for T in SMALL + MEDIUM + (['S05a', 'S13a', 'S11+S11'] if quick else LARGE + DISCONNECTED):
        out.append(Obligation('%s corners' % T, 'corners', {'T': T}, timeout=300 if quick else 1500, bound='all integral laminations'))
    for T in SMALL + (['S12a', 'S04c'] if quick else MEDIUM + DISCONNECTED):
        out.append(Obligation('%s consistent' % T, 'consistent', {'T': T}, timeout=100 if quick else 900, bound='all integer weights'))
    for T in SMALL + (['S12a', 'S04c'] if quick else MEDIUM + DISCONNECTED):
        for fn in ('peripheral', 'adding') + (('again', ) if T in SMALL or not quick else ()):
            out.append(Obligation('%s %s' % (T, fn), fn, {'T': T}, timeout=300 if quick else 1500, bound='all integral laminations'))
    for T in SMALL + (['S12d', 'S04b'] if quick else MEDIUM):
        few = quick and T.startswith('S12')
        out.append(Obligation('%s reported' % T, 'reported', {'T': T, 'few': few}, timeout=300 if quick else 3000, bound='all integral laminations' + (' with arcs parallel to the first edge only' if few else '')))
    for T, word in [('S11', ()), ('S12a', ()), ('S04c', ()), ('S12c', ()), ('S04b', ()), ('S12b', (4, )), ('S04d', (1, ))]:
        for i in range(len(systems(T, word))):
            out.append(Obligation('%s %s parallel %d' % (T, list(word), i), 'parallel', {'T': T, 'index': i, 'word': word}, timeout=100 if quick else 900, bound='all multiplicities'))
    return out
