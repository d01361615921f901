''' C14: boundaries of regular neighbourhoods. '''
from .common import *
from .c09 import listed, cones, mapping
from .c13 import vertices, multiplicity, peripheral_curve

PROPERTY = 'C14'
WITNESSES = 120
TECHNIQUE = 'symbolic execution of the real boundary, is_filling and is_polygonalisation code (with the shortening it relies on) on sums of disjoint arcs and curves with symbolic multiplicities; oracle: an independent description of the boundary by the ends of the edges that are not used and of the pieces by counting; z3 decides that the weights agree'
BOUNDS = 'multiplicities: unbounded, of at most the stated number of the listed components at once (short after the listed words of flips)'
STUBS = ['maximin is the maximum of the minima (C19 decides this)']

def K(): return curver().kernel

def closed(U, used):
    ''' Indices of the edges used, with the third side of each triangle that has two used sides. '''
    used = set(used)
    while True:
        more = {e.index for t in U for e in t if sum(x.index in used for x in t) >= 2} - used
        if not more: return used
        used |= more

def outline(T, word, labels):
    ''' The boundary of a neighbourhood of these edges (of the triangulation after the word), on T: each other edge is crossed once for each of its ends at a vertex of them. '''
    def build():
        f = mapping(T, word)
        U = f.target_triangulation
        used = closed(U, {K().Edge(x).index for x in labels})
        touched = [v for v in vertices(U) if any(e.index in used for e in v)]
        w = [0 if i in used else sum(1 for v in touched for e in v if e.index == i) for i in range(U.zeta)]
        return list(f.inverse()(K().MultiCurve(U, w))) if any(w) else w
    return once(('14 outline', T, str(word), tuple(labels)), build)

def polygons(T, word, labels):
    ''' Whether the edges cut the surface into polygons: every piece is a tree of triangles. '''
    U = mapping(T, word).target_triangulation
    used = {K().Edge(x).index for x in labels}
    pieces, seen = 0, set()
    for t in U.triangles:
        if t in seen: continue
        pieces += 1
        todo = [t]
        while todo:
            s = todo.pop()
            if s in seen: continue
            seen.add(s)
            todo += [r for e in s if e.index not in used for r in U.triangles if ~e in r]
    return len(U.triangles) - (U.zeta - len(used)) == pieces

def parts_of(ctx, T, word, indices):
    parts = [listed(T, word)[i] for i in indices]
    ms = ctx.ints('m', len(parts), lo=0)
    return parts, ms, combine([p[2] for p in parts], ms)

def present(ctx, parts, ms, kind='arc'): return [p[1] for p, m in zip(parts, ms) if p[0] == kind and m > 0]

def multiarc(ctx, T, word, indices, move):
    ''' A sum of disjoint arcs. '''
    S = tri(T)
    parts, ms, w = parts_of(ctx, T, word, indices)
    ctx.assume(sum(ms, 0) > 0)
    l = lam(S, w, 'MultiArc')
    with maximin_summary():
        b = l.boundary()
        labels = present(ctx, parts, ms)  # Splits into which of them are there.
        ctx.check(b.triangulation == S and isinstance(b, K().MultiCurve) == bool(any(list(b))), 'a multicurve')
        ctx.check_eq(list(b), outline(T, word, labels), 'the boundary depends only on which arcs there are')
        if any(list(b)): ctx.check_eq(b.intersection(l), 0, 'it misses the arcs')
        if move:
            g = mapping(T, move)
            ctx.check_eq(list(g(l).boundary()), list(g(b)), 'it commutes with mappings')

def mixed(ctx, T, word, indices):
    ''' A sum of disjoint arcs and curves. '''
    S = tri(T)
    parts, ms, w = parts_of(ctx, T, word, indices)
    l = lam(S, w)
    with maximin_summary():
        b = l.boundary()
        labels = present(ctx, parts, ms)
        curves = combine([p[2] for p in parts], [0 if p[0] == 'arc' else 2 * m for p, m in zip(parts, ms)])
        ctx.check_eq(list(b), [x + y for x, y in zip(outline(T, word, labels), curves)], 'the boundary of the arcs and two copies of the curves')
        ctx.check(b.triangulation == S and not any(b(e) < 0 or b.left_weight(e) < 0 for e in S.edges), 'no arcs')

def filling(ctx, T, word, indices):
    S = tri(T)
    parts, ms, w = parts_of(ctx, T, word, indices)
    l = lam(S, w)
    with maximin_summary():
        answer = l.is_filling()
        labels = present(ctx, parts, ms)
        curves = [m for p, m in zip(parts, ms) if p[0] == 'curve']
        edge = peripheral_weights(T, outline(T, word, labels))
        meets = once(('14 meets', T, str(word), tuple(labels), tuple(indices)), lambda: all_met(T, word, labels))
        if any(m > 0 for m in curves): ctx.check(not answer, 'curves do not fill')
        elif not labels:
            if not any(m > 0 for m in ms): ctx.check(answer == all(len(c) == 6 and n == 3 for c, n in pieces(S)), 'only pairs of pants are filled by nothing')
        elif not any(m > 0 for p, m in zip(parts, ms) if p[0] == 'peripheral'): ctx.check(answer == (edge and meets), 'fills exactly when everything is met and the boundary is peripheral')
        if answer: ctx.check(edge, 'only when the boundary is peripheral')
        if not any(m > 0 for p, m in zip(parts, ms) if p[0] != 'arc'):
            ctx.check(l.is_polygonalisation() == once(('14 polygons', T, str(word), tuple(labels)), lambda: polygons(T, word, labels)), 'a polygonalisation exactly when it cuts into polygons')
        else: ctx.check(not l.is_polygonalisation(), 'curves are not part of a polygonalisation')

def pieces(S):
    ''' The components of a triangulation, with their numbers of vertices. '''
    out = []
    for c in S.components(): out.append((list(c), sum(1 for v in vertices(S) if v[0] in c)))
    return out

def all_met(T, word, labels):
    ''' Whether every component other than a pair of pants contains one of the arcs. '''
    U = mapping(T, word).target_triangulation
    used = {K().Edge(x).index for x in labels}
    return all((len(c) == 6 and n == 3) or any(e.index in used for e in c) for c, n in pieces(U))

def peripheral_weights(T, w):
    ''' Whether these weights of a multicurve are those of a sum of curves around vertices. '''
    S, left = tri(T), list(w)
    for v in vertices(S):
        n = multiplicity(S, w, v) // 2
        left = [x - n * y for x, y in zip(left, peripheral_curve(S, v))]
    return not any(left)

def edges(ctx, T, label):
    ''' The boundary curve of an edge. '''
    S = tri(T)
    m = ctx.int('m', 1)
    e = K().Edge(label)
    c = S.edge_curve(e)
    expected = outline(T, [], [label])
    ends = [next(v for v in vertices(S) if x in v) for x in (e, ~e)]
    if ends[0] != ends[1]: ctx.check_eq(list(c), expected, 'the boundary curve of an edge')
    else: ctx.check_eq([x + y for x, y in zip(list(c), list(S.edge_curve(~e)))], expected, 'one on each side')
    l = lam(S, [-m if i == e.index else 0 for i in range(S.zeta)], 'MultiArc')
    with maximin_summary():
        b = l.boundary()
        ctx.check_eq(list(b), expected, 'the boundary of copies of an edge')
        ctx.check_eq(list(S.edge_arc(e)), [-1 if i == e.index else 0 for i in range(S.zeta)], 'the edge as an arc')
        ctx.check_eq(list(K().MultiCurve(S, list(c)).boundary()), [2 * x for x in c], 'two copies')

def multicurve(ctx, T):
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_multicurve(S, w))
    l = lam(S, w, 'MultiCurve')
    with env.promote_stub(curver()): ctx.check_eq(list(l.boundary()), [2 * x for x in w], 'two copies of a multicurve')
    ctx.check(not l.is_filling(), 'curves do not fill')

WORDS = {'S11': [[], [0], [1, 0]], 'S03': [[], [0]], 'S03f': [[]], 'S12a': [[], [2], [3, 2]], 'S12d': [[], [1]], 'S12e': [[], [3]], 'S04b': [[], [0]], 'S04d': [[], [2]], 'S04f': [[]], 'S05a': [[], [0]], 'S21a': [[], [0]], 'S11+S03': [[], [0]], 'S11+S11': [[], [0, 3]]}

def obligations(tier):
    quick = tier == 'quick'
    limit = 150 if quick else 1500
    out = []
    def add(name, fn, bound, **params): out.append(Obligation(name, fn, params, timeout=limit, bound=bound))
    for T, words in WORDS.items():
        S = tri(T)
        add('%s multicurve' % T, 'multicurve', 'all multicurves', T=T)
        for e in S.positive_edges if quick else S.edges: add('%s edge %d' % (T, e.label), 'edges', 'all multiplicities', T=T, label=e.label)
        for word in words:
            try: groups = cones(T, word)
            except AssertionError: continue
            moves = [[e.label] for e in S.positive_edges if S.is_flippable(e)]
            for n, cone in enumerate(groups):
                parts = listed(T, word)
                arcs = [i for i in cone if parts[i][0] == 'arc']
                size = 3 if quick and S.zeta > 6 else 4 if quick or S.zeta > 6 else 6
                subsets = [cone] if len(cone) <= size else [cone[i:i+size] for i in range(0, len(cone), 2 if quick else 1) if len(cone[i:i+size]) > 1]
                if len(cone) > size and parts[cone[0]][0] == 'curve': subsets = [[cone[0]] + cone[1:][i:i+size-1] for i in range(0, len(cone) - 1, 2)] + [[cone[0]] + cone[-size+1:]]
                if quick and S.zeta > 6: subsets = subsets[(n + len(word)) % 2::2][:2]
                for k, sub in enumerate(subsets):
                    if all(i in arcs for i in sub):
                        move = moves[(n + k) % len(moves)] if moves else None
                        add('%s %s %s multiarc moved by %s' % (T, word, sub, move), 'multiarc', 'all multiplicities', T=T, word=word, indices=sub, move=move)
                    else: add('%s %s %s mixed' % (T, word, sub), 'mixed', 'all multiplicities', T=T, word=word, indices=sub)
                    add('%s %s %s filling' % (T, word, sub), 'filling', 'all multiplicities', T=T, word=word, indices=sub)
    return out
