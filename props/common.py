''' Shared pieces of the harnesses. Everything here works both on symbolic values and on ordinary integers. '''

from symx import env
from symx import engine as E
from symx.engine import smax, smin, sand, sor, snot, simplies, siff, seq, site  # noqa: F401
from symx.run import Obligation  # noqa: F401

# Triangulations, as lists of triples (so that building one only relies on create_triangulation).
CATALOG = {
    'S11': [(0, 1, 2), (~0, ~1, ~2)],
    'S03': [(-3, -1, -2), (0, 2, 1)],
    'S03f': [(-3, 2, 0), (-2, -1, 1)],
    # S_{1,2}: all five triangulations up to isometry.
    'S12a': [(-6, -3, -1), (-5, -4, 5), (-2, 3, 4), (0, 1, 2)],
    'S12b': [(-6, -3, -1), (-5, -4, 5), (-2, 0, 3), (1, 4, 2)],
    'S12c': [(-6, -3, -1), (-5, 4, 3), (-4, -2, 5), (0, 1, 2)],
    'S12d': [(-6, -1, -2), (-5, -4, 5), (-3, 3, 0), (1, 4, 2)],
    'S12e': [(-6, -1, -2), (-5, -4, 5), (-3, 4, 3), (0, 1, 2)],
    # S_{0,4}: all six.
    'S04a': [(-6, 2, -4), (-5, -1, -3), (-2, 0, 4), (1, 5, 3)],
    'S04b': [(-6, 2, -4), (-5, 4, 0), (-3, -1, -2), (1, 5, 3)],
    'S04c': [(-6, 2, -4), (-5, -1, -3), (-2, 3, 0), (1, 4, 5)],
    'S04d': [(-6, -4, 5), (-5, 4, 0), (-3, -1, -2), (1, 3, 2)],
    'S04e': [(-6, 1, 2), (-5, 4, 0), (-4, 3, 5), (-3, -1, -2)],
    'S04f': [(-6, -4, 5), (-5, 4, 0), (-3, -2, 2), (-1, 3, 1)],
    # Some of S_{0,5}, S_{2,1} and S_{1,3}.
    'S05a': [(-9, 4, -6), (-8, 3, -5), (-7, -1, -4), (-3, 1, 7), (-2, 0, 6), (2, 8, 5)],
    'S05b': [(-9, -6, 8), (-8, 3, -5), (-7, 6, 0), (-4, -1, -2), (-3, 1, 7), (2, 5, 4)],
    'S21a': [(-9, -7, -8), (-6, 7, 8), (-5, -3, -4), (-2, 3, 4), (-1, 5, 6), (0, 1, 2)],
    'S21b': [(-9, -7, -8), (-6, -5, 7), (-4, -3, -1), (-2, 6, 3), (0, 1, 4), (2, 5, 8)],
    'S13a': [(-9, -3, -1), (-8, 8, -5), (-7, -6, 7), (-4, 5, 6), (-2, 3, 4), (0, 1, 2)],
    'S13b': [(-9, -3, -1), (-8, 8, -5), (-7, -6, 7), (-4, -2, 5), (0, 1, 2), (3, 6, 4)],
    # Disconnected: S_{1,1} with S_{1,1}, and S_{1,1} with S_{0,3}.
    'S11+S11': [(0, 1, 2), (~0, ~1, ~2), (3, 4, 5), (~3, ~4, ~5)],
    'S11+S03': [(0, 1, 2), (~0, ~1, ~2), (3, 5, 4), (~5, ~3, ~4)],
    }
SMALL = ['S11', 'S03', 'S03f']
MEDIUM = ['S12a', 'S12b', 'S12c', 'S12d', 'S12e', 'S04a', 'S04b', 'S04c', 'S04d', 'S04e', 'S04f']
LARGE = ['S05a', 'S05b', 'S21a', 'S21b', 'S13a', 'S13b']
DISCONNECTED = ['S11+S11', 'S11+S03']

def curver():
    return env.load_curver()

_base = {}
def tri(name):
    ''' A triangulation. Built afresh for each call on the real code (replay), shared in symbolic mode (its caches are per path). '''
    if E._cur is None: return curver().create_triangulation(CATALOG[name])
    if name not in _base: _base[name] = curver().create_triangulation(CATALOG[name])
    return _base[name]

def once(key, fn):
    ''' Build a concrete object once per process, outside of any path. '''
    if E._cur is None: return fn()
    if key not in _base:
        cur, E._cur = E._cur, None
        try: _base[key] = fn()
        finally: E._cur = cur
    return _base[key]

def pos(x): return smax(x, 0)

def triangle_ok(a, b, c):
    ''' The condition that weights on a triangle come from an integral lamination. '''
    a, b, c = pos(a), pos(b), pos(c)
    return sor(a > b + c, b > c + a, c > a + b, (a + b + c) % 2 == 0)

def is_integral(T, w):
    return sand(*[triangle_ok(*[w[e.index] for e in t]) for t in T])

def is_multicurve(T, w):
    out = []
    for t in T:
        a, b, c = [w[e.index] for e in t]
        out += [a >= 0, b >= 0, c >= 0, a <= b + c, b <= c + a, c <= a + b, (a + b + c) % 2 == 0]
    return sand(*out)

def sym_lamination(ctx, T, name='w', kind='any'):
    ''' An arbitrary integral lamination / an arbitrary multicurve on T (any size). '''
    w = ctx.ints(name, T.zeta)
    ctx.assume(is_multicurve(T, w) if kind == 'curves' else is_integral(T, w))
    return lam(T, w)

def lam(T, w, cls='IntegralLamination'):
    return getattr(curver().kernel, cls)(T, list(w))

def cap(T, w, n):
    ''' Total weight at most n. '''
    return sum((pos(x) for x in w), 0) <= n

# --- homology
_functionals = {}
def cocycles(T):
    ''' A basis of the integer functionals on edge vectors that vanish on boundaries of triangles (an independent oracle for homology). '''
    key = tuple(T.signature)
    if key not in _functionals:
        from fractions import Fraction
        rows = []
        for t in T:
            row = [Fraction(0)] * T.zeta
            for e in t: row[e.index] += e.sign()
            rows.append(row)
        pivots, r = [], 0
        for c in range(T.zeta):
            p = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
            if p is None: continue
            rows[r], rows[p] = rows[p], rows[r]
            rows[r] = [x / rows[r][c] for x in rows[r]]
            for i in range(len(rows)):
                if i != r and rows[i][c] != 0: rows[i] = [x - rows[i][c] * y for x, y in zip(rows[i], rows[r])]
            pivots.append(c); r += 1
        out = []
        for free in range(T.zeta):
            if free in pivots: continue
            v = [Fraction(0)] * T.zeta
            v[free] = Fraction(1)
            for i, c in enumerate(pivots): v[c] = -rows[i][free]
            d = 1
            for x in v: d = d * x.denominator // __import__('math').gcd(d, x.denominator)
            out.append([int(x * d) for x in v])
        _functionals[key] = out
    return _functionals[key]

def hom_equal(T, a, b):
    ''' The condition that two edge vectors are homologous (the quotient by triangles is torsion free). '''
    diff = [x - y for x, y in zip(a, b)]
    return sand(*[sum((k * d for k, d in zip(phi, diff)), 0) == 0 for phi in cocycles(T)])

# --- families of laminations: all non-negative combinations of a fixed system of disjoint components.
def systems(T, word=(), limit=None):
    ''' Maximal systems of pairwise disjoint components (as vectors on T), seen from the triangulation after the given word of flips. '''
    def build():
        S = tri(T)
        h = S.encode(list(word)) if word else S.id_encoding()
        U, back = h.target_triangulation, h.inverse()
        arcs = U.edge_arcs()
        out = [[list(back(a)) for a in arcs]]
        peripheral = [U.curve_from_cut_sequence(v) for v in sorted(U.vertices)]
        seen = set()
        for e in U.edges:
            c = U.edge_curve(e)
            if not isinstance(c, curver().kernel.Curve) or c.is_peripheral() or tuple(c) in seen: continue
            seen.add(tuple(c))
            system = [c] + [a for a in arcs if a.intersection(c) == 0]
            system += [p for p in peripheral if all(p.intersection(a) == 0 for a in system)]
            out.append([list(back(x)) for x in system])
        return out
    return once(('systems', T, tuple(word)), build)[:limit]

def combine(vectors, ms): return [sum((m * v[i] for m, v in zip(ms, vectors)), 0) for i in range(len(vectors[0]))]

def cone_lamination(ctx, T, vectors, name='m', against=None, total=None):
    ''' sum m_i v_i with all m_i >= 0 (unbounded). When their intersection with the given curve is fixed then the
    multiplicities of the v_i that meet it are bounded, so split into their finitely many values straight away. '''
    ms = ctx.ints(name, len(vectors), lo=0)
    if total is not None:
        meets = once(('meets', T, tuple(against), tuple(map(tuple, vectors))), lambda: [against.intersection(lam(tri(T), v)) for v in vectors])
        ctx.assume(sum((x * m for x, m in zip(meets, ms)), 0) == total)
        ms = [ctx.concretize(m) if x else m for x, m in zip(meets, ms)]
    return lam(tri(T), combine(vectors, ms)), ms

# --- a summary of flips on multicurves: max(a + c, b + d) - e. Checks that use it also decide (see flip_lemma) that the
# real code agrees with it on every multicurve, for each flip that they rely on.
class flip_summary:
    def __init__(self, fork=False): self.fork = fork  # Whether to explore a path for each case, instead of a single term with the maximum.
    def __enter__(self):
        if E._cur is None: return
        fork = self.fork
        def larger(x, y): return (x if x >= y else y) if fork else smax(x, y)
        kernel = curver().kernel
        self.saved = [(cls, cls.apply_lamination) for cls in (kernel.moves.EdgeFlip, kernel.moves.MultiEdgeFlip)]
        concrete = lambda l: all(type(x) is int for x in l.geometric)  # These are always moved for real.
        def edge(move, l):
            if concrete(l): return self.saved[0][1](move, l)
            out = list(l.geometric)
            a, b, c, d, e = [l(x) for x in move.square]
            out[move.edge.index] = larger(a + c, b + d) - e
            return l.__class__(move.target_triangulation, out)
        def multi(move, l):
            if concrete(l): return self.saved[1][1](move, l)
            out = list(l.geometric)
            for f in move.edges:
                a, b, c, d, e = [l(x) for x in move.squares[f]]
                out[f.index] = larger(a + c, b + d) - e
            return l.__class__(move.target_triangulation, out)
        kernel.moves.EdgeFlip.apply_lamination, kernel.moves.MultiEdgeFlip.apply_lamination = edge, multi
    def __exit__(self, *args):
        if E._cur is None: return
        for cls, fn in self.saved: cls.apply_lamination = fn

def flip_lemma(ctx, moves):
    ''' The real flips act on every multicurve as in the summary (and give multicurves). '''
    kernel = curver().kernel
    move = ctx.choose('move', list(moves))
    S = move.source_triangulation
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_multicurve(S, w))
    l = kernel.MultiCurve(S, list(w))
    image = move.apply_lamination(l)
    expected = list(w)
    for square in ([move.square] if isinstance(move, kernel.EdgeFlip) else move.squares.values()):
        a, b, c, d, e = [w[x.index] for x in square]
        expected[square[4].index] = smax(a + c, b + d) - e
    ctx.check_eq(image.geometric, expected, 'the flip formula on multicurves')
    ctx.check(is_multicurve(move.target_triangulation, expected), 'the image is a multicurve')

def flips_of(f):
    ''' The different flips that a mapping may use. '''
    kernel, seen, out = curver().kernel, set(), []
    def visit(item):
        if isinstance(item, (kernel.EdgeFlip, kernel.MultiEdgeFlip)):
            key = (tuple(item.source_triangulation.signature), str(item.package()))
            if key not in seen:
                seen.add(key)
                out.append(item)
        for name in ('encoding', 'signed_encoding', 'encoding_power'):
            for other in getattr(item, name, ()): visit(other)
    for item in f: visit(item)
    for item in f.inverse(): visit(item)
    return out

class maximin_summary:
    ''' maximin is the maximum of the minima (C19 decides this for the real code), without a path for each comparison. '''
    def __enter__(self):
        if E._cur is None: return
        utilities = curver().kernel.utilities
        self.saved = utilities.maximin
        def maximin(*iterables): return smax(*[smin(*list(x)) for x in iterables])
        utilities.maximin = maximin
    def __exit__(self, *args):
        if E._cur is None: return
        curver().kernel.utilities.maximin = self.saved
