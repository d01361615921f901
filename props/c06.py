''' C06: homology classes are equal exactly when they differ by triangles. '''
from .common import *

PROPERTY = 'C06'
TECHNIQUE = 'symbolic execution of the real homology code (canonical form, equality, hash, arithmetic) over arbitrary integer edge vectors; the oracle is the lattice of integer cocycles computed by elimination; z3 decides every equivalence'
BOUNDS = 'edge vectors and multiples of triangles: unbounded integers; the listed triangulations (also after the listed flips)'

def surface(T, word): return once(('surface', T, tuple(word)), lambda: tri(T).encode(list(word)).target_triangulation if word else tri(T))

def HC(S, v): return curver().kernel.HomologyClass(S, v)

def boundary(S, ms):
    ''' The combination of boundaries of triangles. '''
    v = [0] * S.zeta
    for t, m in zip(S, ms):
        for e in t: v[e.index] = v[e.index] + m * e.sign()
    return v

def canonical(ctx, T, word):
    S = surface(T, word)
    a, b = ctx.ints('a', S.zeta), ctx.ints('b', S.zeta)
    x, y = HC(S, a), HC(S, b)
    cx = x.canonical()
    ctx.check(hom_equal(S, list(cx), a), 'the canonical form is homologous')
    ctx.check_eq(list(cx.canonical()), list(cx), 'idempotent')
    ctx.check_eq(list((x + y).canonical()), [p + q for p, q in zip(cx, y.canonical())], 'additive')
    ctx.check_eq(list(x + y), [p + q for p, q in zip(a, b)], 'sum')
    ctx.check_eq(list(x - y), [p - q for p, q in zip(a, b)], 'difference')
    ctx.check_eq(list(-x), [-p for p in a], 'negation')
    ctx.check_eq(list(sum([x, y, x])), [2 * p + q for p, q in zip(a, b)], 'sum() of several')
    ctx.check_eq([x(i) for i in range(S.zeta)] + [x(~i) for i in range(S.zeta)], a + [-p for p in a], 'measure of oriented edges')
    ctx.check(bool(cx.is_canonical()), 'the canonical form is canonical')
    basis = S.homology_basis()
    k = len(cocycles(S))
    ctx.check(len(basis) == k, 'the basis has the right number of elements')
    ctx.check(k == len(cocycles(S)) and all(b.is_canonical() for b in basis), 'the basis is canonical')
    # The basis consists of single edges, so the class is the combination of the basis with its canonical weights.
    combo = [0] * S.zeta
    for hc in basis:
        ctx.check(sum(abs(i) for i in hc) == 1, 'basis elements are edges')
        coefficient = sum((p * q for p, q in zip(cx, hc)), 0)
        combo = [p + coefficient * q for p, q in zip(combo, hc)]
    ctx.check_eq(combo, list(cx), 'the basis spans')
    # On homologous vectors the canonical forms agree.
    ms = ctx.ints('m', S.num_triangles)
    z = HC(S, [p + q for p, q in zip(a, boundary(S, ms))])
    ctx.check_eq(list(z.canonical()), list(cx), 'adding triangles keeps the canonical form')
    ctx.check_eq(E.hashed(z), E.hashed(x), 'equal classes have equal hashes')

def equality(ctx, T, word):
    S = surface(T, word)
    a, b = ctx.ints('a', S.zeta), ctx.ints('b', S.zeta)
    ctx.check(siff(bool(HC(S, a) == HC(S, b)), hom_equal(S, a, b)), 'equal if and only if homologous')
    ctx.check(siff(not bool(HC(S, a) != HC(S, b)), hom_equal(S, a, b)), 'unequal if and only if not homologous')

def is_canonical(ctx, T, word):
    S = surface(T, word)
    a = ctx.ints('a', S.zeta)
    x = HC(S, a)
    ctx.check(siff(bool(x.is_canonical()), seq(a, list(x.canonical()))), 'is_canonical')

def different(ctx, T, word):
    S, U = tri(T), surface(T, word)
    a = ctx.ints('a', S.zeta)
    if S == U: return
    ctx.check(not bool(HC(S, a) == HC(U, a)), 'classes on different triangulations differ')
    try: HC(S, a) + HC(U, a)
    except ValueError: return
    ctx.fail('classes on different triangulations were added')

WORDS = {'S11': [[], [0], [0, ~1]], 'S03': [[], [0]], 'S03f': [[], [0]]}

def obligations(tier):
    out = []
    for T in SMALL + MEDIUM + LARGE + DISCONNECTED:
        S = tri(T)
        words = WORDS.get(T) or [[]] + [[i] for i in range(S.zeta) if S.is_flippable(i)][:1 if tier == 'quick' else None]
        for word in words:
            for h in ('canonical', 'equality', 'is_canonical') + (('different', ) if word else ()):
                if h == 'different' and not S.is_flippable(word[-1]): continue
                out.append(Obligation('%s %s %s' % (T, word, h), h, {'T': T, 'word': word}, timeout=60 if tier == 'quick' else 600, bound='all integer vectors'))
    return out
