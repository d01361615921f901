''' C20: sums and multiples of laminations are the sums of their weights. '''
from .common import *

PROPERTY = 'C20'
TECHNIQUE = 'symbolic execution of the real addition, multiplication, sum, equality and hash code of laminations with symbolic weights and symbolic multiplicities; z3 decides that every weight of the result is the sum of the weights'
BOUNDS = 'weights of arbitrary integral laminations: unbounded; multiplicities of listed disjoint components: unbounded; multiples of arbitrary laminations: 0 to the stated bound; lists of up to four summands with repetitions'
STUBS = ['Lamination.promote (finding the finest class by shortening) only turns the result into an IntegralLamination in the obligations about arbitrary weights; the obligations about listed components run it for real']

def K(): return curver().kernel
def stub(): return env.promote_stub(curver())
class real:
    def __enter__(self): return self
    def __exit__(self, *args): pass

def isum(vs): return [sum(x, 0) for x in zip(*vs)]

def add(ctx, T):
    S = tri(T)
    v, w = ctx.ints('v', S.zeta), ctx.ints('w', S.zeta)
    ctx.assume(sand(is_integral(S, v), is_integral(S, w)))
    A, B = lam(S, v), lam(S, w)
    with stub():
        for name, C, expected in [
            ('sum', A + B, isum([v, w])), ('sum with itself', A + A, [2 * x for x in v]),
            ('sum of the list', S.sum([A, B]), isum([v, w])), ('sum of the dictionary', S.sum({A: 3} if bool(A == B) else {A: 2, B: 1}), isum([v, v, w])),
            ('sum of the list with repetitions', S.sum([A, B, A, A]), isum([v, w, v, v])),
            ('sum of a tuple', S.sum((A, )), v), ('sum of none', S.sum([]), [0] * S.zeta),
            ]:
            ctx.check(C.triangulation == S, 'triangulation')
            ctx.check_eq(C.geometric, expected, name)

def disjoint(ctx, T, second):
    S = tri(T)
    v = ctx.ints('v', S.zeta)
    ctx.assume(is_integral(S, v))
    if second is None:
        w = ctx.ints('w', S.zeta)
        ctx.assume(is_integral(S, w))
    else: w = second
    A, B = lam(S, v), lam(S, w)
    for name, C, expected in [
        ('disjoint sum of the list with repetitions', S.disjoint_sum([B, A, B]), isum([v, w, w])),
        ('disjoint sum of the dictionary', S.disjoint_sum({A: 4} if bool(A == B) else {A: 1, B: 3}), isum([v, w, w, w])),
        ('disjoint sum of none', S.disjoint_sum([]), [0] * S.zeta),
        ]:
        ctx.check(C.triangulation == S, 'triangulation')
        ctx.check(isinstance(C, K().IntegralLamination), 'integral')
        ctx.check_eq(C.geometric, expected, name)

def multiple(ctx, T, bound):
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_integral(S, w))
    n = ctx.choose('n', list(range(bound + 1)))
    A = lam(S, w)
    with stub():
        for B in (A * n, n * A, S.sum({A: n}), S.disjoint_sum({A: n}), S.sum([A] * n)):
            ctx.check(isinstance(B, K().IntegralLamination), 'a multiple of an integral lamination is one')
            ctx.check_eq(B.geometric, [n * x for x in w], 'multiple')
        ctx.check(bool(B.is_empty()) == (n == 0 or not bool(sor(*[x != 0 for x in w]))), 'empty')

def equality(ctx, T):
    S = tri(T)
    v, w = ctx.ints('v', S.zeta), ctx.ints('w', S.zeta)
    ctx.assume(sand(is_integral(S, v), is_integral(S, w)))
    A, B = lam(S, v), lam(S, w, ctx.choose('class', ['IntegralLamination', 'Lamination', 'MultiCurve']))
    ctx.check(siff(bool(A == B), seq(v, w)), 'equal if and only if the weights are')
    ctx.check(siff(bool(A != B), snot(seq(v, w))), 'unequal if and only if the weights are')
    if bool(seq(v, w)): ctx.check_eq(E.hashed(A), E.hashed(B), 'equal laminations have equal hashes')
    ctx.check(siff(bool(A), sor(*[x != 0 for x in v])), 'truth')

def families(T):
    ''' Lists of disjoint components with their kinds. '''
    S = tri(T)
    out = []
    for system in systems(T):
        comps = []
        for v in system:
            comps.append((v, 'Arc' if any(x < 0 for x in v) else 'Curve'))
        out.append(comps)
    return out

def kind(ctx, T, family, indices, dictionary, how, zeros=()):
    ''' Components with symbolic multiplicities: the kind of the result and its weights. '''
    S = tri(T)
    comps = families(T)[family]
    L = [getattr(K(), comps[i][1])(S, list(comps[i][0])) for i in indices]
    ms = ctx.ints('m', len(indices), lo=0)
    for j in range(len(indices)):
        if j in zeros: ctx.assume(ms[j] == 0)
    if dictionary: out = getattr(S, how)(dict(zip(L, ms)))
    else: out = getattr(S, how)([m * l for m, l in zip(ms, L)])
    expected = combine([comps[i][0] for i in indices], ms)
    ctx.check_eq(out.geometric, expected, 'weights')
    ctx.check(isinstance(out, K().IntegralLamination), 'integral')
    present = [comps[i][1] for i, m in zip(indices, ms) if bool(m > 0)]
    if not present: ctx.check(bool(out.is_empty()), 'empty')
    elif set(present) == {'Curve'}: ctx.check(isinstance(out, K().MultiCurve), 'a sum of curves is a multicurve')
    elif set(present) == {'Arc'}: ctx.check(isinstance(out, K().MultiArc), 'a sum of arcs is a multiarc')
    else: ctx.check(not isinstance(out, (K().MultiArc, K().MultiCurve)), 'mixed')
    single = len(present) == 1 and bool(sum(ms, 0) == 1)
    if present: ctx.check(isinstance(out, (K().Arc, K().Curve)) == single, 'connected if and only if it is a single component')

def scale(ctx, T, family, index):
    ''' Any multiple of a fixed component, and of a fixed multiple of it. '''
    S = tri(T)
    v, k = families(T)[family][index]
    n = ctx.int('n', lo=0)
    c = getattr(K(), k)(S, list(v))
    for X, f in [(c, 1), (getattr(K(), 'Multi' + k)(S, [2 * x for x in v]), 2)]:
        for Y in (n * X, X * n, S.disjoint_sum({X: n})):
            ctx.check_eq(Y.geometric, [f * n * x for x in v], 'weights')
            ctx.check(isinstance(Y, K().IntegralLamination), 'integral')
            if bool(n > 0):
                ctx.check(isinstance(Y, getattr(K(), 'Multi' + k)), 'kind')
                ctx.check(isinstance(Y, getattr(K(), k)) == bool(f * n == 1), 'connected')
            else: ctx.check(bool(Y.is_empty()), 'empty')

def refused(ctx, T, other):
    ''' Laminations on different triangulations are never summed, nor are negative multiplicities allowed. '''
    S, U = tri(T), once(('other', T, str(other)), lambda: tri(T).encode([o if isinstance(o, int) else {int(k): v for k, v in o.items()} for o in other]).target_triangulation)
    v, w = ctx.ints('v', S.zeta), ctx.ints('w', S.zeta)
    ctx.assume(sand(is_integral(S, v), is_integral(U, w)))
    A, B = lam(S, v), lam(U, w)
    n = ctx.int('n')
    ctx.assume(n < 0)
    with stub():
        attempts = [lambda: A + B, lambda: B + A, lambda: S.sum([A, B]), lambda: S.disjoint_sum([A, B]), lambda: S.sum({B: 1}), lambda: S.disjoint_sum({B: 1}), lambda: U.sum([A, A]),
            lambda: S.sum({A: n}), lambda: S.disjoint_sum({A: n})]
        which = ctx.choose('attempt', list(range(len(attempts))))
        try: attempts[which]()
        except ValueError:
            ctx.check(True, 'refused')
            return
    ctx.fail('not refused')

def obligations(tier):
    out = []
    quick = tier == 'quick'
    limit = 60 if quick else 900
    for T in SMALL + MEDIUM + LARGE[:1 if quick else None] + DISCONNECTED:
        out.append(Obligation('%s add' % T, 'add', {'T': T}, timeout=limit, bound='all pairs of integral laminations'))
        if T in SMALL or not quick: out.append(Obligation('%s disjoint' % T, 'disjoint', {'T': T, 'second': None}, timeout=limit, bound='all pairs of integral laminations', must=T in SMALL))
        if T not in LARGE or not quick: out.append(Obligation('%s disjoint from a component' % T, 'disjoint', {'T': T, 'second': systems(T)[1 if T != 'S03' and len(systems(T)) > 1 else 0][0]}, timeout=limit, bound='all integral laminations', must=False))
        out.append(Obligation('%s multiple' % T, 'multiple', {'T': T, 'bound': 4 if quick else 12}, timeout=limit, bound='all integral laminations, n <= %d' % (4 if quick else 12)))
        out.append(Obligation('%s equality' % T, 'equality', {'T': T}, timeout=limit, bound='all pairs of integral laminations'))
    for T in ['S11', 'S03', 'S12a', 'S12d', 'S04b', 'S11+S03'] + ([] if quick else ['S03f', 'S12b', 'S04e', 'S05a', 'S21a']):
        for f, comps in enumerate(families(T)[:4 if quick else None]):
            arcs = [i for i, c in enumerate(comps) if c[1] == 'Arc']
            curves = [i for i, c in enumerate(comps) if c[1] == 'Curve']
            groups = [g for g in [arcs[:2], arcs, curves[:2], curves, arcs[:1] + curves[:1], arcs[:1] + curves[:2] + arcs[1:2]] if g]
            for g in [g for i, g in enumerate(groups) if g not in groups[:i]]:
                for dictionary in (True, False) if len(g) <= (3 if quick else 4) else (True, ):
                    out.append(Obligation('%s family %d %s disjoint_sum %s' % (T, f, g, dictionary), 'kind', {'T': T, 'family': f, 'indices': g, 'dictionary': dictionary, 'how': 'disjoint_sum'}, timeout=limit, bound='all multiplicities'))
                if len(g) <= (2 if quick else 3): out.append(Obligation('%s family %d %s sum' % (T, f, g), 'kind', {'T': T, 'family': f, 'indices': g, 'dictionary': True, 'how': 'sum'}, timeout=limit, bound='all multiplicities', must=False))
            for i in [x[0] for x in (arcs, curves) if x]:
                out.append(Obligation('%s family %d scale %d' % (T, f, i), 'scale', {'T': T, 'family': f, 'index': i}, timeout=limit, bound='all multiples'))
    for T, other in [('S11', [0]), ('S12a', [{0: 1, 1: 0, 2: 2, 3: 3, 4: 4, 5: 5}]), ('S04b', [3])]:
        out.append(Obligation('%s refused' % T, 'refused', {'T': T, 'other': [o if isinstance(o, int) else {str(k): v for k, v in o.items()} for o in other]}, timeout=limit, bound='all pairs'))
    return out
