''' C22: equality and order decide how mapping classes act on everything. '''
from .common import *

PROPERTY = 'C22'
WITNESSES = 100
TECHNIQUE = 'symbolic execution of the real moves of pairs of words that the real code reports to be equal (or that are equal by a relation of the mapping class group), and of powers of words whose order is reported, on laminations and homology classes with symbolic weights; z3 decides that both act in the same way on all of them'
BOUNDS = 'weights: unbounded (arbitrary integral laminations on S_{1,1}, arbitrary multicurves elsewhere, arbitrary homology classes); the listed surfaces, relations, pairs of words and words'
STUBS = ['away from S_{1,1} flips act on multicurves by max(a + c, b + d) - e (the lemma obligations decide that the real flips agree)']

FORK = True
def K(): return curver().kernel
def group(g, n): return once(('22 group', g, n), lambda: curver().load(g, n))
def element(g, n, word): return once(('22', g, n, word), lambda: group(g, n).mapping_class(word))


class nothing:
    def __enter__(self): return self
    def __exit__(self, *args): pass
def summary(kind): return flip_summary(fork=True) if kind == 'multicurves' else nothing()

def start(ctx, S, kind):
    if isinstance(kind, list):  # Arcs with multiplicities, the edges after a word of flips.
        def build():
            f = S.encode(list(kind)) if kind else S.id_encoding()
            return [list(f.inverse()(a)) for a in f.target_triangulation.edge_arcs()]
        vectors = once(('22 arcs', tuple(S.signature), str(kind)), build)
        return lam(S, combine(vectors, ctx.ints('m', len(vectors), lo=0)))
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_multicurve(S, w) if kind == 'multicurves' else is_integral(S, w))
    return lam(S, w, 'MultiCurve' if kind == 'multicurves' else 'IntegralLamination')
def classes(ctx, S): return K().HomologyClass(S, ctx.ints('h', S.zeta))

def same_action(ctx, f, h, what, part):
    S = f.source_triangulation
    ctx.check(f.source_triangulation == h.source_triangulation and f.target_triangulation == h.target_triangulation, 'same source and target')
    if part == 'homology':
        c = classes(ctx, S)
        ctx.check(hom_equal(f.target_triangulation, list(f(c)), list(h(c))), what + ' on homology')
    else:
        with summary(part):
            l = start(ctx, S, part)
            ctx.check_eq(list(f(l)), list(h(l)), what)

def compare(key, f, h): return once(('22 eq',) + key, lambda: (f == h, h == f, hash(f) == hash(h), f != h))

def relation(ctx, g, n, u, v, part):
    f, h = element(g, n, u), element(g, n, v)
    ctx.check(compare((g, n, u, v), f, h) == (True, True, True, False), 'equal by a relation of the mapping class group')
    same_action(ctx, f, h, 'relation', part)

def differ(f, h):
    S = f.source_triangulation
    units = [[int(i == j) for j in range(S.zeta)] for i in range(S.zeta)]
    return any(list(f(a)) != list(h(a)) for a in S.edge_arcs()) or any(not bool(hom_equal(f.target_triangulation, list(f(K().HomologyClass(S, v))), list(h(K().HomologyClass(S, v))))) for v in units)

def ball(g, n, radius):
    ''' Words in the generators, with the first one of those that the real code reports equal to it. '''
    def build():
        letters = sorted(group(g, n).mapping_classes)
        words, layer = [''], ['']
        for _ in range(radius):
            layer = [w + ('.' if w else '') + x for w in layer for x in letters]
            words += layer
        G = group(g, n)
        first, out = [], []
        for w in words:
            f = G.mapping_class(w)
            u = next((u for u, h in first if h == f), None)
            if u is None: first.append((w, f))
            else: out.append((u, w))
        return [w for w, _ in first], out
    return once(('22 ball', g, n, radius), build)

def reported(ctx, g, n, radius, low, high, part):
    ''' Mapping classes that are reported to be equal act in the same way. '''
    u, v = ctx.choose('pair', ball(g, n, radius)[1][low:high])
    f, h = element(g, n, u), element(g, n, v)
    ctx.check(compare((g, n, u, v), f, h) == (True, True, True, False), 'reported consistently')
    same_action(ctx, f, h, 'reported equal', part)

def distinct(ctx, g, n, radius):
    ''' Those that are reported to be different act differently. '''
    first = ball(g, n, radius)[0]
    i = ctx.choose('i', list(range(len(first))))
    f = element(g, n, first[i])
    for u in first[:i]:
        h = element(g, n, u)
        ctx.check(compare((g, n, u, first[i]), h, f)[:2] == (False, False), 'symmetric')
        ctx.check(once(('22 differ', g, n, u, first[i]), lambda: differ(f, h)), 'reported different')

def conjugate(ctx, g, n, word, curve, power, part):
    ''' The twist about the image of a curve is the conjugate of the twist. '''
    G = group(g, n)
    f = element(g, n, word)
    def build():
        c = G.curves[curve] if curve in G.curves else G.arcs[curve]
        make = lambda c, k: c.encode_twist(k) if curve in G.curves else c.encode_halftwist(k)
        return make(f(c), power), f * make(c, power) * f.inverse()
    a, b = once(('22 conj', g, n, word, curve, power), build)
    ctx.check(compare((g, n, word, curve, power), a, b) == (True, True, True, False), 'equal to its conjugate')
    same_action(ctx, a, b, 'the twist about the image', part)

def order(ctx, g, n, word, part):
    f = element(g, n, word)
    S = f.source_triangulation
    k = once(('22 order', g, n, word), f.order)
    ctx.check(f.is_periodic() == (k > 0) and f.is_identity() == (k == 1), 'periodic and identity')
    identity = S.id_encoding()
    for j in range(1, k if k else S.max_order() + 1): ctx.check(once(('22 power', g, n, word, j), lambda: differ(f**j, identity)), 'no smaller power is the identity')
    if not k: return
    if part == 'homology':
        c = classes(ctx, S)
        ctx.check(hom_equal(S, list(f(c, power=k)), list(c)), 'this power fixes homology')
        ctx.check(hom_equal(S, list((f**k)(c)), list(c)), 'this power fixes homology')
    else:
        with summary(part):
            l = start(ctx, S, part)
            half = k // 2
            ctx.check_eq(list(f(l, power=k - half)), list(f.inverse()(l, power=half)), 'this power fixes everything')

def lemma(ctx, g, n, words, part): flip_lemma(ctx, needed(g, n, words)[3*part:3*part+3])

def needed(g, n, words):
    def build():
        out, seen = [], set()
        for w in words:
            for move in flips_of(element(g, n, w) if isinstance(w, str) else w):
                key = (tuple(move.source_triangulation.signature), str(move.package()))
                if key not in seen:
                    seen.add(key)
                    out.append(move)
        return out
    return once(('22 flips', g, n, str(words)), build)

RELATIONS = {
    (1, 1): [('a_0.b_0.a_0', 'b_0.a_0.b_0'), ('(a_0.b_0)^6', ''), ('(a_0.b_0.a_0)^2', '(a_0.b_0)^3'), ('(a_0.b_0.a_0)^4', ''), ('a_0.b_0.A_0', 'B_0.a_0.b_0')],
    (1, 2): [('a_0.b_0.a_0', 'b_0.a_0.b_0'), ('p_1.b_0.p_1', 'b_0.p_1.b_0'), ('a_0.p_1', 'p_1.a_0'), ('s_1.a_0', 'a_0.s_1'), ('s_0.b_0', 'b_0.s_0'), ('(a_0.b_0.p_1)^4', '')],
    (0, 4): [('s_0.s_1.s_0', 's_1.s_0.s_1'), ('s_1.s_2.s_1', 's_2.s_1.s_2'), ('s_0.s_2', 's_2.s_0'), ('s_0.s_1.s_2.s_2.s_1.s_0', ''), ('(s_0.s_1.s_2)^4', '')],
    (0, 5): [('s_0.s_1.s_0', 's_1.s_0.s_1'), ('s_0.s_2', 's_2.s_0'), ('s_1.s_3', 's_3.s_1'), ('s_0.s_1.s_2.s_3.s_3.s_2.s_1.s_0', '')],
    (1, 3): [('a_0.b_0.a_0', 'b_0.a_0.b_0'), ('p_1.b_0.p_1', 'b_0.p_1.b_0'), ('a_0.p_1', 'p_1.a_0'), ('p_2.p_1', 'p_1.p_2'), ('s_1.a_0', 'a_0.s_1')],
    (2, 1): [('a_0.b_0.a_0', 'b_0.a_0.b_0'), ('a_0.a_1', 'a_1.a_0'), ('b_0.a_1', 'a_1.b_0'), ('c_0.b_0.c_0', 'b_0.c_0.b_0'), ('a_0.c_0', 'c_0.a_0'), ('d_1.a_0', 'a_0.d_1')],
    }

BALLS = {(1, 1): 4, (1, 2): 2, (0, 4): 2, (0, 5): 1, (2, 1): 1}
CONJUGATES = {(1, 1): [('a_0', 'b_0', 2), ('a_0.b_0.b_0', 'a_0', -3)], (1, 2): [('b_0', 'a_0', 1), ('s_1', 'p_1', 1), ('b_0', 's_0', 1), ('b_0.p_1', 's_1', -1), ('a_0', 's_1', 3)], (0, 4): [('s_0', 's_1', 1), ('s_0.s_0', 's_1', -2), ('s_1.S_2', 's_3', 1)], (0, 5): [('s_1', 's_2', 1)], (2, 1): [('b_0', 'a_0', 1)]}
ORDERS = {(1, 1): ['a_0.b_0', 'a_0.b_0.a_0', '(a_0.b_0)^3', 'a_0', 'a_0.B_0', 'a_0.a_0.b_0', '(a_0.b_0)^2', 'a_0.(b_0.a_0)^3.A_0'], (1, 2): ['a_0.b_0.p_1', '(a_0.b_0.p_1)^2', 'a_0.b_0', 's_0', '(a_0.b_0.p_1)^3.p_1', 'a_0.(a_0.b_0.p_1).A_0', '(a_0.b_0)^3.s_1'], (0, 4): ['s_0.s_1.s_2', 's_0.s_1', 's_0.s_1.s_1', '(s_0.s_1)^2', 's_0.S_2', 's_0.s_1.s_2.s_0.s_1', 's_0.s_2', '(s_0.s_1.s_2)^2'], (0, 5): ['s_0.s_1.s_2.s_3', 's_0.s_1.s_2', 's_0.s_1.s_2.s_2', 's_0.s_1'], (2, 1): ['a_0.b_0.c_0.b_1.d_1', 'a_0.b_0.c_0.b_1', 'a_0.b_0', 'a_1.b_1']}

def obligations(tier):
    quick = tier == 'quick'
    limit = 150 if quick else 1500
    out = []
    def add(name, fn, bound, **params): out.append(Obligation(name, fn, params, timeout=limit, bound=bound))
    for (g, n), relations in RELATIONS.items():
        surface, words, big = 'S_%d_%d' % (g, n), [], (g, n) not in ((1, 1), (1, 2), (0, 4))
        kinds = [('laminations', 'laminations')] if (g, n) == (1, 1) else [('multicurves', 'multicurves')]
        kinds += [('homology', 'homology')]
        arcs = [('multiarcs %s' % w, w) for w in ([[], [0]] if not big else [[]])]
        for u, v in relations:
            heavy = (g, n) == (1, 3) and 'p_' in u or 'c_0' in u or (g, n) == (0, 5) and u != 's_0.s_2'
            if quick and heavy and (g, n) != (0, 5): continue
            for kind, part in kinds + ([] if quick and heavy else arcs): add('%s %s == %s %s' % (surface, u, v or '1', kind), 'relation', 'all %s' % kind, g=g, n=n, u=u, v=v, part=part)
            words += [u, v]
        if (g, n) in BALLS:
            radius = BALLS[g, n] + (0 if quick or big else 1)
            add('%s distinct' % surface, 'distinct', 'words of at most %d letters' % radius, g=g, n=n, radius=radius)
            count = len(ball(g, n, radius)[1])
            for low in range(0, count, 12):
                if quick and count > 40 and (low // 12) % 3: continue
                for kind, part in kinds + arcs[:1]: add('%s reported %d %s' % (surface, low, kind), 'reported', 'all %s, words of at most %d letters' % (kind, radius), g=g, n=n, radius=radius, low=low, high=low + 12, part=part)
            words += [x for w in ball(g, n, radius)[1] for x in w]
        for word, name, power in CONJUGATES.get((g, n), []):
            for kind, part in kinds + arcs[:1]: add('%s %s on %s^%d %s' % (surface, word, name, power, kind), 'conjugate', 'all %s' % kind, g=g, n=n, word=word, curve=name, power=power, part=part)
        for word in ORDERS.get((g, n), []):
            for kind, part in kinds + arcs[:1]:
                if quick and big and (kind.startswith('multiarcs') or kind == 'multicurves' and g == 2): continue  # Too slow.
                add('%s order of %s %s' % (surface, word, kind), 'order', 'all %s' % kind, g=g, n=n, word=word, part=part)
        words += ORDERS.get((g, n), [])
        words = sorted(set(words))
        if (g, n) != (1, 1):
            count = len(needed(g, n, words))
            for part in range(0, -(-count // 3), 4 if quick else 1): add('%s lemma %d' % (surface, part), 'lemma', 'all multicurves', g=g, n=n, words=words, part=part)
    return out
