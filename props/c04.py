''' C04: powers of Dehn twists act as iterated single twists. '''
from .common import *

PROPERTY = 'C04'
TECHNIQUE = 'symbolic execution of the real twist / slope / flip code with a symbolic power and arbitrary integer weights; z3 decides the inductive step T^k == T T^(k-1) on every path'
BOUNDS = ('powers: unbounded integers; laminations: every integral lamination (unbounded weights) on the smaller triangulations, every multiarc / mixed lamination sum m_i v_i (m_i unbounded) '
    'carried by the listed systems of disjoint components on the larger ones; i(curve, lamination) fixed at each of the listed values; the listed curves')

def curves(T):
    ''' Short non-peripheral curves on T. '''
    def build():
        S, out = tri(T), []
        for e in S.edges:
            if S.vertex_lookup[e] == S.vertex_lookup[~e]:
                c = S.edge_curve(e)
                if isinstance(c, curver().kernel.Curve) and not c.is_peripheral() and c.is_short() and list(c) not in out: out.append(list(c))
        return out
    return once(('curves', T), build)

def the_curve(T, c):
    def build():
        curve = tri(T)(list(c))
        curve.shorten(); curve.is_peripheral(); curve.is_short()
        if not curve.is_peripheral(): curve.encode_twist(1); curve.encode_twist(-1)
        return curve
    return once(('curve', T, tuple(c)), build)

def start(ctx, T, c, n, kind):
    S, curve = tri(T), the_curve(T, c)
    if isinstance(kind, list):  # A system of components: flip word, number.
        word, index, j = kind
        vectors = systems(T, word)[index]
        if j: vectors = once(('twisted', T, tuple(c), tuple(word), index, j), lambda: [list(curve.encode_twist(1)(lam(S, v), power=j)) for v in vectors])
        l, _ = cone_lamination(ctx, T, vectors, against=curve, total=n)
    else: l = sym_lamination(ctx, S, kind=kind)
    if n is not None: ctx.check(curve.intersection(l) == n, 'intersection number') if isinstance(kind, list) else ctx.assume(curve.intersection(l) == n)
    return S, curve, l

def single(T, c, side): return once(('one', T, tuple(c), side), lambda: the_curve(T, c).encode_twist(side))

def step(ctx, T, c, n, kind, side):
    ''' T^k == T T^(k-1) (or, for negative k, T^k == T^-1 T^(k+1)). '''
    S, curve, l = start(ctx, T, c, n, kind)
    k = ctx.int('k')
    ctx.assume(k >= 2 if side > 0 else k <= -2)
    whole = curve.encode_twist(k)(l)
    steps = single(T, c, side)(curve.encode_twist(k - side)(l))
    ctx.check_eq(whole.geometric, steps.geometric, 'T^k == T T^(k-1)')
    ctx.check(whole.triangulation == S, 'on the same triangulation')

def cancel(ctx, T, c, n, kind):
    S, curve, l = start(ctx, T, c, n, kind)
    f, g = single(T, c, 1), single(T, c, -1)
    image = f(l)
    ctx.check_eq(g(image).geometric, l.geometric, 'opposite twists cancel')
    ctx.check_eq(f.inverse()(image).geometric, l.geometric, 'inverse undoes the twist')
    if n is not None: ctx.check(curve.intersection(image) == n, 'the twist keeps the intersection with its curve')
    image = g(l)
    ctx.check_eq(f(image).geometric, l.geometric, 'opposite twists cancel the other way')
    ctx.check_eq(curve.encode_twist(0)(l).geometric, l.geometric, 'zero power')

def powers_cancel(ctx, T, c, n, kind, side):
    S, curve, l = start(ctx, T, c, n, kind)
    k = ctx.int('k')
    ctx.assume(k >= 2 if side > 0 else k <= -2)
    f = curve.encode_twist(k)
    ctx.check_eq(f.inverse()(f(l)).geometric, l.geometric, 'the inverse of T^k undoes it')

def disjoint(ctx, T, c, kind='any'):
    ''' The twist fixes everything disjoint from the curve, itself included. '''
    S, curve, l = start(ctx, T, c, 0, kind)
    k = ctx.int('k')
    ctx.check_eq(curve.encode_twist(k)(l).geometric, l.geometric, 'fixes disjoint laminations')
    for p in (1, -1): ctx.check_eq(single(T, c, p)(l).geometric, l.geometric, 'a single twist fixes disjoint laminations')
    m = ctx.int('m', 1)
    ctx.check_eq(curve.encode_twist(k)(lam(S, [m * x for x in c])).geometric, [m * x for x in c], 'fixes its curve')

def multi(ctx, T, c1, c2, m1, m2, kind, n1, n2):
    ''' A twist about m1 c1 + m2 c2 is the product of the twists about c1 and c2. '''
    S, a, b = tri(T), the_curve(T, c1), the_curve(T, c2)
    both = once(('multi', T, tuple(c1), tuple(c2), m1, m2), lambda: S([m1 * x + m2 * y for x, y in zip(c1, c2)]))
    once(('multi shorten', T, tuple(c1), tuple(c2), m1, m2), lambda: (both.shorten(), both.is_peripheral(), both.encode_twist(1), both.encode_twist(2)) and None)
    _, _, l = start(ctx, T, c1, n1, kind)
    ctx.assume(b.intersection(l) == n2)
    k = ctx.int('k')
    ctx.assume(sor(k >= 2, k <= -2))
    ctx.check_eq(both.encode_twist(k)(l).geometric, b.encode_twist(k * m2)(a.encode_twist(k * m1)(l)).geometric, 'multitwist == product of twists')

WORDS = {  # Flip words giving other systems of components.
    'S11': [[]], 'S12a': [[], [3]], 'S12b': [[], [4]], 'S12c': [[], [5]], 'S12d': [[], [5]], 'S12e': [[], [3]],
    'S04b': [[], [4]], 'S04d': [[], [2]], 'S04e': [[], [5]], 'S04f': [[], [1]], 'S05b': [[], [7]], 'S21a': [[]], 'S21b': [[]], 'S13a': [[]], 'S13b': [[]],
    }

def obligations(tier):
    out = []
    quick = tier == 'quick'
    def add(T, c, kind, n, tag, limit, which=('step', 'powers', 'cancel')):
        name = '%s %s %s i=%s' % (T, c, tag, n)
        if any(o.name.startswith(name) for o in out): return
        b = 'i = %s, all k, %s' % (n, 'weights otherwise unbounded' if isinstance(kind, str) else 'all combinations of the system')
        for side in (1, -1):
            if 'step' in which: out.append(Obligation('%s step %+d' % (name, side), 'step', {'T': T, 'c': c, 'n': n, 'kind': kind, 'side': side}, timeout=limit, bound=b))
            if 'powers' in which: out.append(Obligation('%s inverse of power %+d' % (name, side), 'powers_cancel', {'T': T, 'c': c, 'n': n, 'kind': kind, 'side': side}, timeout=limit, bound=b))
        if 'cancel' in which: out.append(Obligation(name + ' cancel', 'cancel', {'T': T, 'c': c, 'n': n, 'kind': kind}, timeout=limit, bound=b))
    short = 100 if quick else 1200
    # Every lamination.
    add('S11', [1, 1, 0], 'any', 1, 'any', short)
    add('S11', [1, 1, 0], 'any', 2, 'any', short, ('step', ))
    add('S11', [2, 1, 1], 'any', 1, 'any', short, ('step', ))
    if not quick:
        for c in ([1, 1, 0], [1, 0, 1], [0, 1, 1], [2, 1, 1], [1, 3, 2], [3, 5, 2]):
            for n in (1, 2, 3, 4): add('S11', c, 'any', n, 'any', short)
        for T, n in (('S12a', 1), ('S12a', 2), ('S12d', 1), ('S12e', 1), ('S04e', 2), ('S04b', 1)):
            for c in curves(T)[:2]:
                for kind in ('curves', 'any'): add(T, c, kind, n, kind, short)
    # Systems of components.
    for T in ['S12a', 'S12d', 'S12e', 'S04b', 'S04e', 'S04f', 'S05b', 'S21a'] if quick else MEDIUM + LARGE:
        cs = curves(T)
        if quick: cs = cs[:1] if T not in ('S12e', ) else cs[:2]
        elif len(cs) > 4: cs = cs[::2][:4]
        for c in cs:
            for word in WORDS.get(T, [[]])[:1 if quick else None]:
                sys_ = systems(T, word)
                for i in range(len(sys_)):
                    if quick and (i > 1 or i and len(sys_[i][0]) > 6): continue
                    for j in ((0, ) if quick and (i or len(sys_[i][0]) > 6) else (-1, 0, 1) if quick else (-2, -1, 0, 1, 2)):
                        values = sorted({the_curve(T, c).intersection(lam(tri(T), v)) for v in sys_[i]} - {0})
                        if not values: continue
                        for n in ([values[0], 2 * values[0]][:1 if quick else 2] + values[1:2]):
                            add(T, c, [word, i, j], n, 'system %s.%d.%d' % (word, i, j), short, ('step', 'cancel') if quick else ('step', 'powers', 'cancel'))
            out.append(Obligation('%s %s disjoint' % (T, c), 'disjoint', {'T': T, 'c': c, 'kind': [[], 0, 0]}, timeout=short, bound='all k, all combinations of the system'))
            for i in range(1, len(systems(T))):
                if all(the_curve(T, c).intersection(lam(tri(T), v)) == 0 for v in systems(T)[i]):
                    out.append(Obligation('%s %s disjoint %d' % (T, c, i), 'disjoint', {'T': T, 'c': c, 'kind': [[], i, 0]}, timeout=short, bound='all k, all combinations of the system'))
    for T in ['S11'] + ([] if quick else ['S12a', 'S12d', 'S12e', 'S04e']):
        for c in curves(T)[:2]: out.append(Obligation('%s %s disjoint any' % (T, c), 'disjoint', {'T': T, 'c': c}, timeout=short, bound='all k, all weights'))
    for T, c1, c2 in [('S12e', [1, 1, 0, 0, 0, 0], [0, 0, 0, 1, 1, 0]), ('S05b', [0, 1, 0, 1, 0, 0, 0, 1, 0], [0, 0, 1, 0, 1, 0, 0, 1, 0])]:
        if the_curve(T, c1).intersection(the_curve(T, c2)) != 0: continue
        for m1, m2 in [(2, 1)] if quick else [(1, 1), (2, 1), (1, 3)]:
            for n1, n2 in [(1, 1), (2, 0)] + ([] if quick else [(2, 2), (1, 2), (0, 2)]):
                out.append(Obligation('%s multitwist %s %s %d %d i=%d,%d' % (T, c1, c2, m1, m2, n1, n2), 'multi', {'T': T, 'c1': c1, 'c2': c2, 'm1': m1, 'm2': m2, 'kind': [[], 0, 0], 'n1': n1, 'n2': n2}, timeout=short, must=False, bound='all k'))
    return out
