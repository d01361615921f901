''' C05: powers of half-twists act as iterated half-twists. '''
from .common import *

PROPERTY = 'C05'
WITNESSES = 80
TECHNIQUE = 'symbolic execution of the real half-twist / twist / slope / flip code with a symbolic power and arbitrary integer weights; z3 decides H^k == H H^(k-1) and H^2 == T on every path'
BOUNDS = ('powers: unbounded integers; laminations: every integral lamination (unbounded weights) on S_{0,3}, every lamination sum m_i v_i (m_i unbounded) carried by the listed systems of '
    'disjoint components on the larger surfaces; i(boundary, lamination) fixed at each of the listed values; the listed arcs')

def arcs(T):
    S = tri(T)
    return [e.label for e in S.positive_edges if S.vertex_lookup[e] != S.vertex_lookup[~e]]

def the_arc(T, a):
    def build():
        S = tri(T)
        arc = S.edge_arc(a) if isinstance(a, int) else S(list(a))
        arc.shorten(); arc.boundary(); arc.boundary().shorten(); arc.has_distinct_endpoints()
        arc.encode_halftwist(1); arc.encode_halftwist(-1); arc.encode_halftwist(3); arc.boundary().encode_twist(1)
        return arc
    return once(('arc', T, str(a)), build)

def start(ctx, T, a, n, kind):
    S, arc = tri(T), the_arc(T, a)
    boundary = once(('boundary', T, str(a)), lambda: arc.boundary())
    if isinstance(kind, list):
        word, index, j = kind
        vectors = systems(T, word)[index]
        if j: vectors = once(('htwisted', T, str(a), tuple(word), index, j), lambda: [list(single(T, a, 1)(lam(S, v), power=j)) for v in vectors])
        l, _ = cone_lamination(ctx, T, vectors, against=boundary, total=n)
    else: l = sym_lamination(ctx, S, kind=kind)
    if n is not None: ctx.check(boundary.intersection(l) == n, 'intersection number') if isinstance(kind, list) else ctx.assume(boundary.intersection(l) == n)
    return S, arc, boundary, l

def single(T, a, side): return once(('half', T, str(a), side), lambda: the_arc(T, a).encode_halftwist(side))

def step(ctx, T, a, n, kind, side):
    S, arc, boundary, l = start(ctx, T, a, n, kind)
    k = ctx.int('k')
    ctx.assume(k >= 2 if side > 0 else k <= -2)
    whole = arc.encode_halftwist(k)(l)
    steps = single(T, a, side)(arc.encode_halftwist(k - side)(l))
    ctx.check_eq(whole.geometric, steps.geometric, 'H^k == H H^(k-1)')
    ctx.check(whole.triangulation == S, 'on the same triangulation')

def basics(ctx, T, a, n, kind):
    S, arc, boundary, l = start(ctx, T, a, n, kind)
    f, g = single(T, a, 1), single(T, a, -1)
    image = f(l)
    ctx.check_eq(g(image).geometric, l.geometric, 'opposite half-twists cancel')
    ctx.check_eq(f.inverse()(image).geometric, l.geometric, 'the inverse undoes it')
    twice = f(image)
    ctx.check_eq(once(('T', T, str(a)), lambda: boundary.encode_twist(1))(l).geometric, twice.geometric, 'H^2 == T about the boundary')
    ctx.check_eq(arc.encode_halftwist(2)(l).geometric, twice.geometric, 'squared')
    ctx.check_eq(arc.encode_halftwist(0)(l).geometric, l.geometric, 'zero power')
    m = ctx.int('m', 1)
    ctx.check_eq(f(lam(S, [m * x for x in arc])).geometric, [m * x for x in arc], 'fixes its arc')

def powers(ctx, T, a, n, kind, side):
    S, arc, boundary, l = start(ctx, T, a, n, kind)
    k = ctx.int('k')
    ctx.assume(k >= 2 if side > 0 else k <= -2)
    f = arc.encode_halftwist(k)
    ctx.check_eq(f.inverse()(f(l)).geometric, l.geometric, 'the inverse of H^k undoes it')
    ctx.check_eq(f(lam(S, list(arc))).geometric, list(arc), 'H^k fixes its arc')

def two(ctx, T, a, b, n):
    ''' The half-twist about a pair of disjoint arcs is the product. '''
    S, x, y = tri(T), the_arc(T, a), the_arc(T, b)
    both = once(('two', T, a, b), lambda: S.disjoint_sum([x, y]))
    once(('two shorten', T, a, b), lambda: (both.shorten(), both.has_distinct_endpoints(), both.encode_halftwist(1), both.encode_halftwist(3)) and None)
    _, _, _, l = start(ctx, T, a, n, [[], 0, 0])
    k = ctx.int('k')
    ctx.assume(sor(k >= 2, k <= -2))
    ctx.check_eq(both.encode_halftwist(k)(l).geometric, x.encode_halftwist(k)(y.encode_halftwist(k)(l)).geometric, 'half-twist about two arcs == product')

WORDS = {'S12a': [[], [3]], 'S12b': [[], [4]], 'S12c': [[], [5]], 'S12d': [[], [5]], 'S12e': [[], [3]],
    'S04a': [[], [2]], 'S04b': [[], [4]], 'S04c': [[], [3]], 'S04d': [[], [2]], 'S04e': [[], [5]], 'S04f': [[], [1]], 'S05a': [[]], 'S05b': [[], [7]], 'S13a': [[]], 'S13b': [[]]}
LONG = {'S12a': [[4, [5, 0]]], 'S04b': [[3, [1, 5]]]}  # An edge moved by a half-twist power and flips.

def obligations(tier):
    out = []
    quick = tier == 'quick'
    limit = 100 if quick else 1200
    for T in ['S03', 'S03f']:
        for a in arcs(T)[:2 if quick else None]:
            out.append(Obligation('%s arc %s basics' % (T, a), 'basics', {'T': T, 'a': a, 'n': None, 'kind': 'any'}, timeout=limit, bound='all weights'))
            for side in (1, -1):
                out.append(Obligation('%s arc %s step %+d' % (T, a, side), 'step', {'T': T, 'a': a, 'n': None, 'kind': 'any', 'side': side}, timeout=limit, bound='all weights, all k'))
    for T in ['S12a', 'S12e', 'S04a', 'S04c', 'S04f', 'S05b', 'S13b'] if quick else MEDIUM + LARGE:
        S = tri(T)
        cs = arcs(T)
        if quick: cs = cs[:1]
        for a in cs:
            boundary = the_arc(T, a).boundary()
            for word in WORDS.get(T, [[]])[:1 if quick else None]:
                sys_ = systems(T, word)
                for i in range(len(sys_)):
                    if quick and (i > 1 or i and S.zeta > 6): continue
                    for j in ((0, ) if quick and (i or S.zeta > 6) else (0, -1) if quick else (-2, -1, 0, 1, 2)):
                        values = sorted({boundary.intersection(lam(S, v)) for v in sys_[i]} - {0})
                        if not values: continue
                        for n in ([values[0]] if quick else [values[0], 2 * values[0]] + values[1:2]):
                            tag, b = '%s arc %s system %s.%d.%d i=%d' % (T, a, word, i, j, n), 'i = %d, all k, all combinations of the system' % n
                            if any(o.name.startswith(tag + ' ') for o in out): continue
                            p = {'T': T, 'a': a, 'n': n, 'kind': [word, i, j]}
                            out.append(Obligation(tag + ' basics', 'basics', p, timeout=limit, bound=b))
                            for side in (1, -1):
                                out.append(Obligation('%s step %+d' % (tag, side), 'step', dict(p, side=side), timeout=limit, bound=b))
                                if not quick or i == j == 0 and T.startswith('S04') and n == 1: out.append(Obligation('%s inverse of power %+d' % (tag, side), 'powers', dict(p, side=side), timeout=limit, bound=b))
    for T, a in [('S04b', None), ('S12a', None)]:  # Arcs that are not edges.
        S = tri(T)
        e, f = arcs(T)[0], arcs(T)[1]
        long = list(S.edge_arc(e).encode_halftwist(3)(S.edge_arc(f)))
        if all(x <= 0 for x in long): continue
        boundary = the_arc(T, long).boundary()
        for v in sorted({boundary.intersection(lam(S, v)) for v in systems(T)[0]} - {0})[:1 if quick else 2]:
            p = {'T': T, 'a': long, 'n': v, 'kind': [[], 0, 0]}
            out.append(Obligation('%s arc %s i=%d basics' % (T, long, v), 'basics', p, timeout=limit, bound='i = %d, all k, all combinations of the system' % v))
            for side in (1, -1): out.append(Obligation('%s arc %s i=%d step %+d' % (T, long, v, side), 'step', dict(p, side=side), timeout=limit, bound='i = %d, all k, all combinations of the system' % v))
    for T in ['S04a', 'S04b', 'S04c', 'S04d', 'S04e', 'S04f'][:0 if quick else None]:
        S = tri(T)
        pairs = [(a, b) for a in arcs(T) for b in arcs(T) if a < b and len({S.vertex_lookup[x] for x in (a, ~a, b, ~b)}) == 4]
        for a, b in pairs[:1]: out.append(Obligation('%s arcs %s %s' % (T, a, b), 'two', {'T': T, 'a': a, 'b': b, 'n': 2}, timeout=limit, bound='i(boundary of one) = 2, all k', must=False))
    out.sort(key=lambda o: o.harness != 'two')  # The slow ones first.
    return out
