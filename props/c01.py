''' C01: a flip moves every lamination as the geometry of the square dictates, reversibly. '''
from .common import *

PROPERTY = 'C01'
TECHNIQUE = 'symbolic execution of the real flip code over arbitrary integer weights, z3 decides equality with an independent strand-matching oracle on every path'
BOUNDS = 'weights: unbounded integers (every integral lamination, including arcs, parallel arcs and peripheral curves); every flippable oriented edge of every listed triangulation'
STUBS = []

def corners(a, b, c):
    ''' The normal arcs inside a triangle with these weights: ([cut a b], [cut b c], [cut c a], [end through a], [.. b], [.. c]). '''
    a, b, c = pos(a), pos(b), pos(c)
    ta, tb, tc = pos(a - b - c), pos(b - c - a), pos(c - a - b)
    two = lambda x, y, z, tx, ty: site(sor(tx > 0, ty > 0), 0, 0)
    # The arcs cutting off the corner between x and y.
    def cut(x, y, z):
        # If z has ending arcs there are none; otherwise each ending arc of x (or y) uses up an intersection.
        big = site(x >= y + z, y, site(y >= x + z, x, 0))
        return site(z >= x + y, 0, site(sor(x >= y + z, y >= x + z), big, (x + y - z) // 2))
    return cut(a, b, c), cut(b, c, a), cut(c, a, b), ta, tb, tc

def overlap(lo1, hi1, lo2, hi2): return pos(smin(hi1, hi2) - smax(lo1, lo2))

def expected(a, b, c, d, e):
    ''' The weight of the other diagonal of the square with (anti-clockwise) sides a, b, c, d and diagonal e (in triangles e, a, b and e, c, d). '''
    ea, ab, be, te, ta, tb = corners(e, a, b)
    ec, cd, de, te2, tc, td = corners(e, c, d)
    n = pos(e)
    # Along e, from the end that it shares with a and d:
    #   on one side: ea strands to a, te into the far corner, be strands to b
    #   on the other: de strands to d, te2 into the far corner, ec strands to c.
    A = {'a': (0, ea), 't': (ea, ea + te), 'b': (ea + te, n)}
    B = {'d': (0, de), 't': (de, de + te2), 'c': (de + te2, n)}
    m = lambda x, y: overlap(*A[x], *B[y])
    crossing = m('a', 'c') + m('b', 'd') + ab + cd + ta + tb + tc + td + pos(-e)
    return crossing - m('t', 't')

def flip(ctx, T, edge):
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    l = lam(S, w)
    f = S.encode_flip(edge)
    image = f(l)
    U = f.target_triangulation
    a, b, c, d, e = [w[x.index] for x in S.square(edge)]
    index = max(edge, ~edge)
    ctx.check(image(index) == expected(a, b, c, d, e), 'new weight is the geometric one')
    ctx.check(sand(*[image(i) == w[i] for i in range(S.zeta) if i != index]), 'other weights unchanged')
    ctx.check(is_integral(U, image.geometric), 'image is an integral lamination')
    ctx.check(image.triangulation == U and U.is_flippable(edge), 'image lives on the target')
    back = f.inverse()(image)
    ctx.check(back.triangulation == S, 'returns to the source')
    ctx.check_eq(back.geometric, w, 'inverse undoes the flip')
    # A square flipped forwards twice only has its edge reversed.
    g = U.encode_flip(edge)
    again = g(image)
    ctx.check_eq(again.geometric, w, 'flipping back by a second flip')
    h = g.target_triangulation.encode_relabel_edges({i: (i if i != index else ~i) for i in range(S.zeta)})
    ctx.check(h.target_triangulation == S, 'two flips reverse the edge')

def pattern(S, edge):
    ''' How the sides of the square about this edge are identified. '''
    square = S.square(edge)
    return tuple((square.index(next(y for y in square if y.index == x.index)), x.label < 0) for x in square) if len(set(x.index for x in square)) < 5 else (edge.label < 0, )

def obligations(tier):
    out, seen = [], {}
    for name in SMALL + MEDIUM + DISCONNECTED + LARGE:
        S = curver().create_triangulation(CATALOG[name])
        for edge in S.edges:
            if not S.is_flippable(edge): continue
            p = pattern(S, edge)
            seen[p] = seen.get(p, 0) + 1
            if tier == 'thorough' or seen[p] <= (4 if len(p) == 1 else 1):
                out.append(Obligation('%s flip %s' % (name, edge), 'flip', {'T': name, 'edge': edge.label}, timeout=90, bound='all integer weights'))
    return out
