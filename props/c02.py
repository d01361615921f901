''' C02: flips satisfy the relations of the flip graph on every lamination. '''
from itertools import combinations, permutations
from .common import *

PROPERTY = 'C02'
TECHNIQUE = 'symbolic execution of the real flip / multi-flip code over arbitrary integer weights; z3 decides equality of the two sides of each relation on every path'
BOUNDS = 'weights: unbounded integers (every integral lamination); the listed triangulations, every set of pairwise disjoint edges / every pentagon in them'
STUBS = []

def multiflip(ctx, T, edges, signs, direction):
    S = tri(T)
    edges = [e if s > 0 else ~e for e, s in zip(edges, signs)]
    multi = once(('multi', T, tuple(edges)), lambda: S.encode_multiflip(edges))
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S if direction > 0 else multi.target_triangulation, w))
    l = lam(S, w)
    orders = list(permutations(edges))
    chains = once(('chains', T, tuple(edges)), lambda: [S.encode(list(order)) for order in orders])
    if direction > 0:
        image = step(ctx, multi, l)
        ctx.check(image.triangulation == multi.target_triangulation, 'image on target')
        for order, chain in zip(orders, chains):
            ctx.check(chain.target_triangulation == multi.target_triangulation, 'same target triangulation')
            ctx.check_eq(image.geometric, step(ctx, chain, l).geometric, 'multi-flip == flips %s' % (order, ))
        ctx.check_eq(step(ctx, S.encode([set(edges)]), l).geometric, image.geometric, 'encode({..}) is the multi-flip')
        ctx.check_eq(step(ctx, multi.flip_mapping(), l).geometric, image.geometric, 'flip_mapping is equal to the multi-flip')
    else:
        l = lam(multi.target_triangulation, w)
        image = step(ctx, multi.inverse(), l)
        ctx.check(image.triangulation == S, 'inverse returns to the source')
        for order, chain in zip(orders, chains):
            ctx.check_eq(image.geometric, step(ctx, chain.inverse(), l).geometric, 'inverse == inverse flips %s' % (order, ))

def pentagon_data(S, e, f):
    g = S.encode([e, f, e, f, e])
    U = g.target_triangulation
    for se in (f, ~f):
        for sf in (e, ~e):
            m = {i: i for i in range(S.zeta)}
            m[e], m[f] = se, sf
            r = U.encode_relabel_edges(m)
            if r.target_triangulation == S: return g, r
    return g, None

def pentagon(ctx, T, e, f):
    S = tri(T)
    g, r = once(('pentagon', T, e, f), lambda: pentagon_data(S, e, f))
    ctx.check(r is not None, 'five flips in a pentagon return to the same triangulation')
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    l = lam(S, w)
    # Compare the short way around with the long way around.
    one = l
    for move in reversed(g.sequence[3:]): one = step(ctx, move, one)
    two = r.inverse()(l)
    for move in g.sequence[:3]: two = step(ctx, move.inverse(), two)
    ctx.check_eq(one.geometric, two.geometric, 'two flips one way == three flips the other way')
    if not ctx.symbolic:  # When replaying also go the whole way around.
        ctx.check_eq(r(g(l)).geometric, w, 'five flips in a pentagon act trivially')

def step(ctx, f, l): return f(l)

def disjoint_sets(S, sizes):
    for k in sizes:
        for edges in combinations(S.positive_edges, k):
            support = [S.triangle_lookup[x] for e in edges for x in (e, ~e)]
            if len(set(support)) == 2 * k: yield [e.label for e in edges]

def obligations(tier):
    out = []
    quick = tier == 'quick'
    def add(name, harness, params, **kw):
        if all(o.name != name for o in out): out.append(Obligation(name, harness, params, bound='all integer weights', **kw))
    for name in ['S11', 'S03', 'S12a', 'S12c', 'S04a', 'S04d', 'S11+S03'] + ([] if quick else SMALL + MEDIUM + LARGE + DISCONNECTED):
        S = curver().create_triangulation(CATALOG[name])
        seen = 0
        for edges in disjoint_sets(S, [2, 3] if S.zeta > 3 else [1]):
            seen += 1
            if quick and seen > 2: continue
            signs = [(-1)**(i + seen) for i in range(len(edges))]
            for direction in (1, -1):
                add('%s multi-flip %s %s %+d' % (name, edges, signs, direction), 'multiflip', {'T': name, 'edges': edges, 'signs': signs, 'direction': direction},
                    timeout=100 if quick else 900, must=len(edges) < 3)
    for name in ['S12a', 'S04b'] + ([] if quick else MEDIUM + LARGE):
        S = curver().create_triangulation(CATALOG[name])
        seen = 0
        for e, f in combinations(S.positive_edges, 2):
            ts = {S.triangle_lookup[x] for x in (e, ~e, f, ~f)}
            if len(ts) == 3 and S.is_flippable(e) and S.is_flippable(f):
                seen += 1
                if quick and seen > 2: continue
                add('%s pentagon %s %s' % (name, e, f), 'pentagon', {'T': name, 'e': e.label, 'f': f.label}, timeout=120 if quick else 900)
    return out
