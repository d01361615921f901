''' C23: the order bound is at least the largest order of a periodic mapping class. '''
import math
from collections import namedtuple
from .common import *

PROPERTY = 'C23'
TECHNIQUE = 'symbolic execution of the real max_order (and its Landau bound) on surfaces with symbolic genus and number of punctures, and of the real order on symbolic periodic actions; z3 decides that the bound is at least the order of known periodic mapping classes (rotations, translations, and the Wiman maps, and those that cycle components)'
BOUNDS = 'one component: all genera and numbers of punctures; with further components: one of any genus and number of punctures, the others from the stated lists; up to 40 equal components (quick: 16)'
STUBS = ['max_order is given a triangulation whose surface() and components() report symbolic genus and number of punctures; replays use a triangulation of the surface unless it would be large']

def K(): return curver().kernel
S = namedtuple('S', ['g', 'p', 'chi'])

def surface_triples(g, p):
    ''' Triangles for the surface of genus g with p punctures: a 4g-gon (or S_{0,3}), cut into triangles and then into smaller ones. '''
    if g == 0: triples, zeta, have = [[0, 1, 2], [~0, ~2, ~1]], 3, 3
    else:
        word = [x for i in range(g) for x in (2*i, 2*i + 1, ~(2*i), ~(2*i + 1))]
        triples, zeta, have = [], 2*g, 1
        while len(word) > 3:
            triples.append([word[0], word[1], ~zeta])
            word = [zeta] + word[2:]
            zeta += 1
        triples.append(word)
    for _ in range(p - have):
        a, b, c = triples.pop(0)
        s, t, u = zeta, zeta + 1, zeta + 2
        triples += [[a, ~u, t], [b, ~s, u], [c, ~t, s]]
        zeta += 3
    return triples, zeta

def disjoint_union(surfaces):
    ''' A real triangulation of the given surface. '''
    triples, shift = [], 0
    for g, p in surfaces:
        more, zeta = surface_triples(g, p)
        triples += [[x + shift if x >= 0 else x - shift for x in t] for t in more]
        shift += zeta
    return curver().create_triangulation(triples)

def max_order(surfaces):
    if E._cur is None and sum(6*g + 3*p - 6 for g, p in surfaces) <= 120: return disjoint_union(surfaces).max_order()
    return once(('23', ), make_fake)(surfaces).max_order()

def make_fake():
    class Fake(K().Triangulation):
        def __init__(self, surfaces):
            self._surfaces = surfaces
            self.triangles = []
        def components(self): return [(4*i, 4*i + 1) for i in range(len(self._surfaces))]
        def surface(self): return {c: S(g, p, 2 - 2*g - p) for c, (g, p) in zip(self.components(), self._surfaces)}
        def is_connected(self): return len(self._surfaces) == 1
        def num_components(self): return len(self._surfaces)
    return Fake

FAMILIES = ['sphere', 'torus translation', 'torus 6', 'torus 4', 'torus 3', 'torus 2', 'Wiman', 'Wiman II', 'hyperelliptic', 'identity']

def known(ctx, i, limit=None):
    ''' A surface and the order of a periodic mapping class of it. '''
    kind = ctx.choose('kind%d' % i, FAMILIES)
    hi = limit
    def n(name, lo, hi_=None): return ctx.int('%s%d' % (name, i), lo, hi_ if hi_ is not None else hi)
    if kind == 'sphere':  # The rotation by 1/n of the sphere, with full orbits and perhaps the two fixed points.
        fixed = ctx.choose('fixed%d' % i, [0, 1, 2])
        o = n('o', 1)
        ctx.assume(o + fixed >= 3)
        return (0, o + fixed), o
    if kind == 'torus translation':
        o = n('o', 1)
        return (1, o), o
    if kind.startswith('torus'):
        o = int(kind.split()[1])
        extra = {6: [(1, 1), (2, 1), (3, 1)], 4: [(1, 2), (2, 1)], 3: [(1, 3)], 2: [(1, 4)]}[o]
        p = o * n('q', 0)
        for j, (size, most) in enumerate(extra): p = p + size * n('f%d_' % j, 0, most)
        ctx.assume(p >= 1)
        return (1, p), o
    g = n('g', 2)
    if kind == 'identity':
        return (g, n('p', 1)), 1
    if kind == 'hyperelliptic':
        p = 2 * n('q', 0) + n('f', 0)
        ctx.assume(sand(p >= 1, p <= 2*g + 2))
        return (g, p), 2
    full = ctx.choose('full%d' % i, [0, 1, 2])
    if kind == 'Wiman':  # y^2 = x^(2g+1) - 1: one fixed point, orbits of sizes two and 2g+1.
        p = n('a', 0, 1) + 2 * n('b', 0, 1) + (2*g + 1) * ctx.choose('c%d' % i, [0, 1]) + (4*g + 2) * full
        ctx.assume(p >= 1)
        return (g, p), 4*g + 2
    p = n('a', 0, 2) + 2*g * ctx.choose('c%d' % i, [0, 1]) + 4*g * full  # y^2 = x(x^2g - 1).
    ctx.assume(p >= 1)
    return (g, p), 4*g

def single(ctx, family):
    (g, p), o = known_of(ctx, 0, family)
    ctx.check(max_order([(g, p)]) >= o, 'the bound is at least the order of %s' % family)

def known_of(ctx, i, family, limit=None):
    class Only:
        def __getattr__(self, name): return getattr(ctx, name)
        def choose(self, name, items): return family if name == 'kind%d' % i else ctx.choose(name, items)
    return known(Only(), i, limit)

def lcm(a, b):
    ''' b is concrete. '''
    r = a % b if b > 1 else 0
    if isinstance(r, E.SymInt): r = E.cur().concretize(r)
    return a * (b // math.gcd(r, b))

def several(ctx, family, others):
    ''' One any surface, and others which are each left alone: the order is the least common multiple. '''
    (g, p), o = known_of(ctx, 0, family)
    for (_, q) in others: o = lcm(o, q)
    ctx.check(max_order([(g, p)] + [s for s, _ in others]) >= o, 'the bound is at least the order of %s with %s' % (family, others))

def cycled(ctx, family, limit, copies):
    ''' Equal components, cycled so that going round once is the given map: the order is the number of them times its order. '''
    (g, p), o = known_of(ctx, 0, family, limit)
    ctx.check(max_order([(g, p)] * copies) >= copies * o, 'the bound is at least the order when cycled %d times' % copies)

LANDAU = {n: order for n, order in enumerate([1, 1, 2, 3, 4, 6, 6, 12, 15, 20, 30, 30, 60, 60, 84, 105, 140, 210, 210, 420, 420, 420, 420, 840, 840, 1260, 1260, 1540, 2310, 2520, 4620, 4620, 5460, 5460, 9240, 9240, 13860, 13860, 16380, 16380, 27720])}

def permuted(ctx, most, g, p):
    ''' Equal components, permuted in any way: Landau's function (https://oeis.org/A000793). '''
    n = ctx.int('n', 1, most)
    n = E.cur().concretize(n) if E._cur is not None else n
    ctx.check(max_order([(g, p)] * n) >= LANDAU[n], 'the bound is at least the largest order of a permutation of %d components' % n)

def measured(ctx, g, p, copies):
    ''' The genus and number of punctures that max_order is given are those of the surface (the triangulation is concrete). '''
    T = once(('measure', g, p, copies), lambda: disjoint_union([(g, p)] * copies + [(1, 2)]))
    got = sorted((x.g, x.p) for x in T.surface().values())
    ctx.check(got == sorted([(g, p)] * copies + [(1, 2)]), 'genus and punctures of each component')
    ctx.check(len(T.components()) == copies + 1, 'components')

def order(ctx, bound):
    ''' The order of a mapping class with period N on laminations, and M | N on homology, is N as long as the bound is not smaller. '''
    T = tri('S11')
    N = ctx.int('N', 0, bound)
    M = ctx.int('M', 0, bound)
    if N == 0: ctx.assume(M >= 0)
    if N == 0: N_ = 0
    else:
        ctx.assume(sand(M >= 1, N >= M))
    N = E.cur().concretize(N) if E._cur is not None else N
    M = E.cur().concretize(M) if E._cur is not None else M
    if N and N % M: return
    np = __import__('numpy')
    class Tri:
        zeta = 3
        def as_lamination(self): return Value(0)
        def max_order(self): return bound
        def __eq__(self, other): return True
    class Value:
        def __init__(self, k): self.k = k
        def __eq__(self, other): return (self.k - other.k) % N == 0 if N else self.k == other.k
    class Fake(K().MappingClass):
        def __init__(self):
            self.source_triangulation = self.target_triangulation = Tri()
            self.sequence = []
            self.zeta = 3
        def __call__(self, x, power=1): return Value(x.k + power)
        def homology_matrix(self):
            return np.array([[1 if (i - j) % M == (1 % M) else 0 for j in range(M)] for i in range(M)], dtype=object) if M else np.array([[1, 1], [0, 1]], dtype=object)
    try: n = Fake().order()
    except (AttributeError, TypeError, NotImplementedError): return  # It asks for more than this stand-in knows.
    ctx.check(n == N, 'the order is the period')

def obligations(tier):
    quick = tier == 'quick'
    limit = 100 if quick else 900
    out = []
    for f in FAMILIES: out.append(Obligation('connected %s' % f, 'single', {'family': f}, timeout=limit, bound='all genera and punctures'))
    lists = [[((0, 3), 3)], [((1, 1), 6)], [((2, 1), 10)], [((1, 1), 4), ((0, 5), 5)], [((2, 1), 8), ((0, 7), 7)], [((1, 1), 6), ((1, 1), 4)], [((0, 3), 2), ((0, 3), 3)], [((2, 1), 10), ((3, 1), 14)], [((2, 1), 10), ((2, 1), 8)], [((0, 7), 7), ((0, 7), 6), ((0, 7), 5)], [((3, 1), 14), ((3, 2), 12), ((1, 5), 5)]]
    for f in FAMILIES:
        for l in lists[::3] if quick else lists: out.append(Obligation('%s with %s' % (f, l), 'several', {'family': f, 'others': [[list(s), o] for s, o in l]}, timeout=limit, bound='all genera and punctures'))
        for copies in (2, 3) if quick else (2, 3, 4, 5, 6): out.append(Obligation('%s cycled %d' % (f, copies), 'cycled', {'family': f, 'limit': 6, 'copies': copies}, timeout=limit, bound='parameters at most 6'))
    for g, p in [(0, 3), (1, 1), (2, 1), (5, 2)]: out.append(Obligation('permuted S_%d,%d' % (g, p), 'permuted', {'most': 16 if quick else 40, 'g': g, 'p': p}, timeout=limit, bound='numbers of components'))
    for g, p, n in [(0, 3, 1), (0, 6, 1), (1, 1, 2), (1, 4, 1), (2, 1, 1), (2, 3, 2), (4, 2, 1)]: out.append(Obligation('surface S_%d,%d x %d' % (g, p, n), 'measured', {'g': g, 'p': p, 'copies': n}, timeout=limit, bound='one triangulation'))
    out.append(Obligation('order', 'order', {'bound': 14 if quick else 40}, timeout=limit, bound='periods'))
    return out
