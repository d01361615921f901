''' C26: refining a triangulation keeps every multicurve. '''
from .common import *

PROPERTY = 'C26'
TECHNIQUE = 'symbolic execution of the real 1-3 Pachner encodings (building the refined triangulation and its matrices, and applying them through numpy and the half object) to multicurves with symbolic weights and to symbolic sets of triangles; z3 decides the weights on every edge and that going back is the identity'
BOUNDS = 'multicurves: unbounded weights; all sets of triangles of the listed triangulations (at most 6 triangles)'
STUBS = ['Lamination.promote only turns its result into an IntegralLamination in the obligations about arbitrary weights; the obligations about multiples of listed curves run it for real']

def K(): return curver().kernel

def refinement(T, subset):
    def build():
        S = tri(T)
        triangles = [t for i, t in enumerate(S) if subset[i]]
        return S.encode_pachner_1_3(None if subset is everything else set(triangles))
    return once(('26', T, str(subset)), build)
everything = 'everything'

def oracle(ctx, S, U, w, chosen, image):
    ''' Read off what the refined triangulation is, from its triangles alone. '''
    new = [e for e in U.edges if e.index >= S.zeta]
    ctx.check(U.zeta == S.zeta + 3 * len(chosen) and U.num_vertices == S.num_vertices + len(chosen) and U.num_triangles == S.num_triangles + 2 * len(chosen), 'one vertex, three edges and two triangles for each')
    ctx.check(sorted(tuple(sorted(x.label for e in c for x in [e] if x.index < S.zeta)) for c in U.components()) == sorted(tuple(sorted(x.label for x in c)) for c in S.components()), 'the same components')
    ctx.check([image(e) for e in S.edges] is not None and len(image.geometric) == U.zeta, 'a weight for each edge')
    ctx.check_eq([image(e) for e in S.edges], [w[e.index] for e in S.edges], 'the old edges keep their weights')
    for t in S:
        a, b, c = t.edges
        if t not in chosen:
            ctx.check(t in U.triangles, 'the others are kept')
            continue
        corners = []
        for e in (a, b, c):
            small = U.corner_lookup[e].edges
            ctx.check(small[0] == e and small[1].index >= S.zeta and small[2].index >= S.zeta, 'a triangle on each side')
            corners.append(small)
        # The new edge between b and c is the last of b's triangle and the first after c, and so on round.
        for (x, y, z) in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
            last, first = corners[y][1], corners[z][2]
            ctx.check(last == ~first, 'the new edges are paired round the new vertex')
            ws = [w[e.index] for e in (a, b, c)]
            ctx.check(2 * image(last) == ws[y] + ws[z] - ws[x], 'the strands across the corner')

def any_multicurve(ctx, T):
    S = tri(T)
    subset = [ctx.choose('t%d' % i, [False, True]) for i in range(S.num_triangles)]
    chosen = [t for i, t in enumerate(S) if subset[i]]
    if not chosen: return
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_multicurve(S, w))
    l = lam(S, w, 'MultiCurve')
    with env.promote_stub(curver()):
        f = refinement(T, subset)
        back = f.inverse()
        image = f(l)
        U = f.target_triangulation
        ctx.check(f.source_triangulation == S and image.triangulation == U and back.source_triangulation == U and back.target_triangulation == S, 'source and target')
        oracle(ctx, S, U, w, chosen, image)
        ctx.check(is_multicurve(U, list(image)), 'the image is a multicurve')
        ctx.check_eq(list(back(image)), w, 'and back')
        ctx.check(back(image).triangulation == S, 'and back')

def kept(ctx, T, default):
    ''' With the classes: multiples of the curves parallel to edges stay (multi)curves, both ways. '''
    S = tri(T)
    subset = everything if default else [i % 2 for i in range(S.num_triangles)]
    f = refinement(T, subset)
    k = ctx.int('k', 0, 40)
    c = once(('26c', T), lambda: next((c for c in (S.edge_curve(e) for e in S.edges) if isinstance(c, K().Curve)), None))
    if c is None: return
    l = lam(S, [k * x for x in c], 'Curve' if ctx.choose('one', [False, True]) else 'MultiCurve')
    if isinstance(l, K().Curve): ctx.assume(k == 1)
    else: ctx.assume(k > 1)
    image = f(l)
    chosen = list(S) if default else [t for i, t in enumerate(S) if subset[i]]
    oracle(ctx, S, f.target_triangulation, list(l), chosen, image)
    ctx.check(isinstance(image, type(l)), 'the image is of the same class')
    back = f.inverse()(image)
    ctx.check(isinstance(back, type(l)), 'going back gives the same class')
    ctx.check_eq(list(back), list(l), 'and back')
    ctx.check(bool(back == l), 'and back')

def obligations(tier):
    quick = tier == 'quick'
    out = []
    for T in SMALL + MEDIUM + DISCONNECTED + LARGE:
        out.append(Obligation('%s refine' % T, 'any_multicurve', {'T': T}, timeout=200 if quick else 1500, bound='all multicurves'))
    for T in ['S11', 'S12a', 'S12d', 'S04a', 'S04d', 'S11+S03'] + (LARGE):
        for d in (True, False): out.append(Obligation('%s classes %s' % (T, d), 'kept', {'T': T, 'default': d}, timeout=200 if quick else 1500, bound='multiples up to 40'))
    return out
