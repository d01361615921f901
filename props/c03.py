''' C03: isometries and relabellings permute weights, compose, invert and commute with flips. '''
from .common import *

PROPERTY = 'C03'
TECHNIQUE = 'symbolic execution of the real isometry / relabelling / flip code over arbitrary integer weights and homology vectors; z3 decides every equality'
BOUNDS = 'weights and homology vectors: unbounded integers; the listed triangulations with all isometries to the listed relabelled copies'

RELABEL = {  # For each zeta, label maps given on the positive labels.
    3: [[1, 2, 0], [~0, ~1, ~2], [2, ~0, 1], [0, ~2, ~1]],
    6: [[1, 2, 3, 4, 5, 0], [~3, 1, ~5, 0, 4, 2], [5, ~4, 3, ~2, 1, ~0]],
    9: [[3, ~7, 1, 0, 8, ~2, 4, ~5, 6]],
    }

def relabel(ctx, T, perm):
    S = tri(T)
    f = once(('relabel', T, tuple(perm)), lambda: S.encode_relabel_edges({i: perm[i] for i in range(S.zeta)}))
    m = {i: perm[i] for i in range(S.zeta)}
    m.update({~i: ~perm[i] for i in range(S.zeta)})
    U = f.target_triangulation
    expected = curver().create_triangulation([tuple(m[x] for x in t) for t in CATALOG[T]])
    ctx.check(U == expected, 'the target is the relabelled triangulation')
    acts(ctx, S, f, m)
    half = {(i if i % 2 else ~i): (perm[i] if i % 2 else ~perm[i]) for i in range(S.zeta)}
    ctx.check(S.encode_relabel_edges(half).target_triangulation == U, 'labels may be given for either orientation')
    if all(x >= 0 for x in perm): ctx.check(S.encode_relabel_edges(list(perm)).target_triangulation == U, 'labels may be given as a list')

def acts(ctx, S, f, m):
    ''' f is the encoding of the isometry that sends label i to m[i]. '''
    U = f.target_triangulation
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    l = lam(S, w)
    image = f(l)
    ctx.check(image.triangulation == U and type(image) == type(l), 'image is the same kind of lamination on the target')
    ctx.check_eq([image(m[i]) for i in range(S.zeta)], w, 'weights are carried with the edges')
    ctx.check_eq(f.inverse()(image).geometric, w, 'inverse returns the weights')
    h = ctx.ints('h', S.zeta)
    hc = curver().kernel.HomologyClass(S, h)
    ih = f(hc)
    ctx.check_eq([ih(m[i]) for i in range(-S.zeta, S.zeta)], [hc(i) for i in range(-S.zeta, S.zeta)], 'homology is carried with the oriented edges')
    ctx.check_eq(list(f.inverse()(ih)), h, 'inverse returns the homology class')
    ctx.check(is_integral(U, image.geometric), 'image is integral')

def isometries(ctx, T, perm):
    ''' Every isometry from T to a relabelled copy of itself (as found by the library). '''
    S = tri(T)
    f = once(('relabel', T, tuple(perm)), lambda: S.encode_relabel_edges({i: perm[i] for i in range(S.zeta)}))
    U = f.target_triangulation
    found = once(('isoms', T, tuple(perm)), lambda: [(i.encode(), dict(i.label_map)) for i in S.isometries_to(U)])
    mine = once(('myisoms', T, tuple(perm)), lambda: all_isometries(S, U))
    same = sorted(sorted(m.items()) for _, m in found) == sorted(sorted(m.items()) for m in mine)
    ctx.check(same, 'isometries_to finds each isometry once')
    ctx.check(S.is_isometric_to(U), 'is isometric')
    for i, m in found: acts(ctx, S, i, m)

def all_isometries(S, U):
    ''' Independent search, for connected triangulations. '''
    nextS = {t[i].label: t[(i+1) % 3].label for t in S for i in range(3)}
    nextU = {t[i].label: t[(i+1) % 3].label for t in U for i in range(3)}
    out = []
    for target in range(-S.zeta, S.zeta):
        m, todo, ok = {0: target}, [0], True
        while todo and ok:
            x = todo.pop()
            for a, b in ((~x, ~m[x]), (nextS[x], nextU[m[x]])):
                if a not in m: m[a] = b; todo.append(a)
                elif m[a] != b: ok = False
        if ok and len(m) == 2 * S.zeta: out.append(m)
    return out

def composite(ctx, T, p, q):
    S = tri(T)
    f = once(('relabel', T, tuple(p)), lambda: S.encode_relabel_edges({i: p[i] for i in range(S.zeta)}))
    g = once(('relabel2', T, tuple(p), tuple(q)), lambda: f.target_triangulation.encode_relabel_edges({i: q[i] for i in range(S.zeta)}))
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    l = lam(S, w)
    ext = lambda perm, x: perm[x] if x >= 0 else ~perm[~x]
    image = (g * f)(l)
    ctx.check_eq([image(ext(q, ext(p, i))) for i in range(S.zeta)], w, 'composite carries the weights')
    h = once(('relabel3', T, tuple(p), tuple(q)), lambda: S.encode_relabel_edges({i: ext(q, ext(p, i)) for i in range(S.zeta)}))
    ctx.check(h.target_triangulation == g.target_triangulation, 'composite relabelling')
    ctx.check_eq(h(l).geometric, image.geometric, 'composite is the composite relabelling')
    hc = curver().kernel.HomologyClass(S, ctx.ints('h', S.zeta))
    ctx.check_eq(list(h(hc)), list(g(f(hc))), 'also on homology')

def equivariance(ctx, T, perm, edge):
    ''' Flip then relabel == relabel then flip the image edge. '''
    S = tri(T)
    ext = lambda x: perm[x] if x >= 0 else ~perm[~x]
    def build():
        f = S.encode_relabel_edges({i: perm[i] for i in range(S.zeta)})
        flip = S.encode_flip(edge)
        other = f.target_triangulation.encode_flip(ext(edge))
        # Flipping by a negatively oriented edge names the new edge by its label (not its orientation), see encode_multiflip.
        g = flip.target_triangulation.encode_relabel_edges({i: perm[i] for i in range(S.zeta)})
        if g.target_triangulation != other.target_triangulation:
            p2 = list(perm); i = max(edge, ~edge); p2[i] = ~p2[i]
            g = flip.target_triangulation.encode_relabel_edges({j: p2[j] for j in range(S.zeta)})
        return f, flip, other, g
    f, flip, other, g = once(('eq', T, tuple(perm), edge), build)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    l = lam(S, w)
    ctx.check(other.target_triangulation == g.target_triangulation, 'the same triangulation either way')
    ctx.check_eq(g(flip(l)).geometric, other(f(l)).geometric, 'flip commutes with relabelling')

def proper(c): return isinstance(c, curver().kernel.Curve) and not c.is_peripheral() and c.is_short()

def words(S, perm):
    ''' Some mappings that mix isometries with flips and twists. '''
    ext = {i: perm[i] for i in range(S.zeta)}
    edges = [e.label for e in S.edges if S.is_flippable(e)]
    T, out = S, []
    seq = [{i: i for i in range(S.zeta)}]
    for e in (edges[0], edges[-1]):
        seq.insert(0, e if S.encode(seq).target_triangulation.is_flippable(e) else None)
        seq.insert(0, dict(ext))
    out.append(seq)
    seq2 = [dict(ext), edges[-1], dict(ext)]
    U = S.encode(seq2[1:]).target_triangulation if S.encode([dict(ext)]).target_triangulation.is_flippable(edges[-1]) else None
    if U is not None: out.append(seq2)
    V = S.encode([dict(ext)]).target_triangulation
    # Multi-flips by oppositely oriented edges, and twists and half-twists.
    flippable = [e for e in V.edges if V.is_flippable(e)]
    sets = [{e.label, f.label} for e in flippable for f in flippable if e.index < f.index and e.sign() != f.sign() and len({V.triangle_lookup[x] for x in (e, ~e, f, ~f)}) == 4]
    sets += [{e.label} for e in flippable if e.sign() < 0]
    for m in sets[:1] + sets[-1:]: out.append([dict(ext), m, dict(ext)])
    for twist in (True, False):
        es = [e for e in V.edges if (V.vertex_lookup[e] == V.vertex_lookup[~e]) == twist and (not twist or proper(V.edge_curve(e)))]
        for e in es[-1:]: out.append([{i: ~i for i in range(S.zeta)}, (e.label, 1 if twist else -1), dict(ext)])
    return out

def combine(ctx, T, perm, which):
    S = tri(T)
    f = once(('combine', T, tuple(perm), which), lambda: S.encode(words(S, perm)[which]))
    g = once(('combined', T, tuple(perm), which), lambda: f.combine_isometries())
    if any(isinstance(m, (curver().kernel.Twist, curver().kernel.HalfTwist)) for m in f): w = [-x for x in ctx.ints('m', S.zeta, lo=0)]
    else:
        w = ctx.ints('w', S.zeta)
        ctx.assume(is_integral(S, w))
    l = lam(S, w)
    ctx.check(g.source_triangulation == S and g.target_triangulation == f.target_triangulation, 'the same source and target')
    ctx.check(sum(1 for m in g if isinstance(m, curver().kernel.Isometry)) <= 1, 'at most one isometry')
    ctx.check_eq(g(l).geometric, f(l).geometric, 'combining isometries keeps the action')
    hc = curver().kernel.HomologyClass(S, ctx.ints('h', S.zeta))
    a, b = g(hc), f(hc)
    ctx.check(hom_equal(f.target_triangulation, list(a), list(b)), 'combining isometries keeps the action on homology')

def obligations(tier):
    out = []
    quick = tier == 'quick'
    names = SMALL + ['S12a', 'S12d', 'S04a', 'S04d', 'S21a'] if quick else SMALL + MEDIUM + LARGE
    for T in names + ['S11+S11']:
        S = curver().create_triangulation(CATALOG[T])
        perms = RELABEL[S.zeta] if S.zeta in RELABEL else []
        for n, perm in enumerate(perms):
            out.append(Obligation('%s relabel %d' % (T, n), 'relabel', {'T': T, 'perm': perm}, bound='all integer weights'))
            if S.is_connected(): out.append(Obligation('%s isometries %d' % (T, n), 'isometries', {'T': T, 'perm': perm}, bound='all integer weights'))
            out.append(Obligation('%s composite %d' % (T, n), 'composite', {'T': T, 'p': perm, 'q': perms[(n + 1) % len(perms)]}, bound='all integer weights'))
            if quick and n > 1: continue
            flippable = [e.label for e in S.edges if S.is_flippable(e)]
            for edge in (flippable if not quick else flippable[n::5][:2]):
                out.append(Obligation('%s flip %d and relabel %d' % (T, edge, n), 'equivariance', {'T': T, 'perm': perm, 'edge': edge}, bound='all integer weights'))
            for k, word in enumerate(words(S, perm)):
                if quick and S.zeta > 6: continue
                out.append(Obligation('%s combine isometries %d %d' % (T, n, k), 'combine', {'T': T, 'perm': perm, 'which': k}, timeout=100, bound='all integer weights' if not any(isinstance(x, tuple) for x in word) else 'all sums of edges, all homology classes'))
        if S.zeta in RELABEL and S.is_connected():
            out.append(Obligation('%s self-isometries' % T, 'isometries', {'T': T, 'perm': list(range(S.zeta))}, bound='all integer weights'))
    return out
