''' C21: encodings compose, invert, slice and take powers as functions. '''
from .common import *
from .c04 import curves, the_curve
from .c07 import decode

PROPERTY = 'C21'
WITNESSES = 120
TECHNIQUE = 'symbolic execution of the real encoding algebra (product, inverse, power, slice, encode, flip_mapping, simplify) applied to laminations with symbolic weights, with symbolic powers and slice positions; z3 decides equality with applying the moves one at a time'
BOUNDS = 'weights: unbounded (arbitrary integral laminations under words of isometries and short words of flips, arbitrary multicurves under the summary of flips that C01/C08 decide, otherwise); powers |k| <= 5; every valid slice of the listed words'
STUBS = ['for longer words flips act on multicurves by max(a + c, b + d) - e (the lemma obligations decide that the real flips agree)']

class nothing:
    def __enter__(self): return self
    def __exit__(self, *args): pass

def K(): return curver().kernel

def mapping(T, word): return once(('21', T, str(word)), lambda: tri(T).encode(decode(T, word)))
def start(ctx, f, kind, name='w'):
    S = f.source_triangulation
    w = ctx.ints(name, S.zeta)
    ctx.assume(is_multicurve(S, w) if kind == 'curves' else is_integral(S, w))
    return lam(S, w, 'MultiCurve' if kind == 'curves' else 'IntegralLamination')
def summary(kind): return flip_summary() if kind == 'curves' else nothing()

def one_by_one(f, l):
    for move in reversed(list(f.sequence)): l = move.apply_lamination(l)
    return l

def composite(ctx, T, word1, word2, kind):
    ''' word2 is written on the target of word1. '''
    f = mapping(T, word1)
    g = once(('21b', T, str(word1), str(word2)), lambda: f.target_triangulation.encode(decode(T, word2)))
    with summary(kind):
        l = start(ctx, f, kind)
        h = g * f
        ctx.check(h.source_triangulation == f.source_triangulation and h.target_triangulation == g.target_triangulation, 'source and target')
        image = h(l)
        ctx.check(image.triangulation == h.target_triangulation and isinstance(image, type(l)), 'lands on the target')
        ctx.check_eq(list(image), list(g(f(l))), 'the product acts as the composite')
        ctx.check_eq(list(image), list(one_by_one(g, one_by_one(f, l))), 'moves act one at a time from the right')
        ctx.check_eq(list(h.inverse()(image)), list(l), 'the inverse undoes it')
        ctx.check_eq(list((~h)(image)), list(l), 'the inverse undoes it')
        k = (f.inverse() * g.inverse())
        ctx.check_eq(list(k(image)), list(l), 'inverse of a product')
        ctx.check(k.source_triangulation == h.target_triangulation and h.inverse().source_triangulation == h.target_triangulation and h.inverse().target_triangulation == f.source_triangulation, 'source and target of inverses')
        if all(isinstance(x, K().Mapping) for x in (f, g)):
            ctx.check(isinstance(h, K().Mapping) and isinstance(h.inverse(), K().Mapping), 'composites of mappings are mappings')
            if h.source_triangulation == h.target_triangulation: ctx.check(isinstance(h, K().MappingClass), 'a mapping from a triangulation to itself is a mapping class')
            else: ctx.check(not isinstance(h, K().MappingClass), 'not a mapping class')
        hc = K().HomologyClass(f.source_triangulation, ctx.ints('h', f.source_triangulation.zeta))
        ctx.check(hom_equal(h.target_triangulation, list(h(hc)), list(g(f(hc)))), 'also on homology')

def power(ctx, T, word, kind, bound):
    h = mapping(T, word)
    k = ctx.choose('k', list(range(-bound, bound + 1)))
    with summary(kind):
        l = start(ctx, h, kind)
        expected = l
        for _ in range(abs(k)): expected = one_by_one(h if k > 0 else h.inverse(), expected)
        p = h**k
        ctx.check(isinstance(p, K().MappingClass) and p.source_triangulation == p.target_triangulation == h.source_triangulation, 'powers are mapping classes')
        ctx.check_eq(list(p(l)), list(expected), 'powers iterate')
        ctx.check_eq(list(h(l, power=k)), list(expected), 'applying with a power iterates')
        ctx.check_eq(list((h**-k)(expected)), list(l), 'opposite powers cancel')
        hc = K().HomologyClass(h.source_triangulation, ctx.ints('h', h.source_triangulation.zeta))
        e = hc
        for _ in range(abs(k)): e = h(e) if k > 0 else h.inverse()(e)
        ctx.check(hom_equal(h.target_triangulation, list(p(hc)), list(e)), 'also on homology')
        ctx.check(hom_equal(h.target_triangulation, list(h(hc, power=k)), list(e)), 'also on homology with a power')

def slices(ctx, T, word, kind, negative):
    f = mapping(T, word)
    n = len(f)
    i = ctx.choose('i', list(range(n + 1)))
    j = ctx.choose('j', list(range(n + 1)))
    if i > j: return
    with summary(kind):
        l = start(ctx, f, kind)
        a, b = (i - n if negative and i < n else i), (j - n if negative and j < n else j)
        first, middle, last = f[:a], f[a:b], f[b:]
        ctx.check(last.source_triangulation == f.source_triangulation and last.target_triangulation == middle.source_triangulation
            and middle.target_triangulation == first.source_triangulation and first.target_triangulation == f.target_triangulation, 'sources and targets')
        x = l
        for move in reversed(list(f.sequence)[j:]): x = move.apply_lamination(x)
        ctx.check_eq(list(last(l)), list(x), 'last moves')
        y = x
        for move in reversed(list(f.sequence)[i:j]): y = move.apply_lamination(y)
        ctx.check_eq(list(middle(x)), list(y), 'middle moves')
        z = y
        for move in reversed(list(f.sequence)[:i]): z = move.apply_lamination(z)
        ctx.check_eq(list(first(y)), list(z), 'first moves')
        ctx.check_eq(list((first * middle * last)(l)), list(f(l)), 'the slices multiply to the whole')
        ctx.check(len(f[:]) == n, 'the whole')
        ctx.check_eq(list(f[:](l)), list(z), 'the whole')
        if i < n: ctx.check_eq(list(f[a](x if i == j - 1 else l)) if i == j - 1 else [], list(y) if i == j - 1 else [], 'one move')

def encode(ctx, T, word, kind):
    ''' encode reads the sequence from the right, each item on the target of the ones after it. '''
    f = mapping(T, word)
    with summary(kind):
        l = start(ctx, f, kind)
        x, U = l, f.source_triangulation
        for item in reversed(decode(T, word)):
            g = once(('item', T, str(word), str(item), tuple(U.signature)), lambda: single(U, item, tri(T)))
            x = one_by_one(g, x)
            U = g.target_triangulation
        ctx.check(U == f.target_triangulation, 'target')
        ctx.check_eq(list(f(l)), list(x), 'one item at a time')
        # Moves, encodings and edges are accepted too.
        other = once(('encoded', T, str(word)), lambda: f.source_triangulation.encode(list(f.sequence)))
        ctx.check(type(other) is type(f) and other.target_triangulation == f.target_triangulation, 'a list of moves')
        ctx.check_eq(list(other(l)), list(x), 'a list of moves')
        other = once(('encoded2', T, str(word)), lambda: f.source_triangulation.encode([f.inverse(), f]))
        ctx.check_eq(list(other(l)), list(l), 'a list of encodings')

def single(U, item, source):
    E_ = K().Edge
    if isinstance(item, set): return U.encode_multiflip(item)
    if isinstance(item, dict):
        if all(i in item or ~i in item for i in range(U.zeta)): return U.encode_relabel_edges(item)
        return U.find_isometry(source, item).encode()
    if isinstance(item, tuple):
        e = E_(item[0])
        if U.vertex_lookup[e] == U.vertex_lookup[~e]: return U.edge_curve(e).encode_twist(item[1])
        return U.edge_arc(e).encode_halftwist(item[1])
    if item is None: return U.id_encoding()
    return U.encode_flip(item)

def refused(ctx, T, word, other):
    ''' Encodings over different triangulations are not composed, and not applied to laminations on the wrong one. '''
    f, g = mapping(T, word), mapping(other, [None])
    w = ctx.ints('w', tri(other).zeta)
    ctx.assume(is_integral(tri(other), w))
    ctx.check(f.source_triangulation != g.target_triangulation, 'different')
    for attempt in (lambda: f * g, lambda: f(lam(tri(other), w)), lambda: f(K().HomologyClass(tri(other), w))):
        try: attempt()
        except ValueError: continue
        ctx.fail('accepted')
    try: f(3)
    except (TypeError, AttributeError): pass
    else: ctx.fail('accepted a number')

def rewritten(ctx, T, word, how, c=None, n=None):
    f = mapping(T, word)
    g = once((how, T, str(word)), lambda: getattr(f, how)())
    ctx.check(g.source_triangulation == f.source_triangulation and g.target_triangulation == f.target_triangulation and type(g) is type(f), 'the same source, target and type')
    if how == 'flip_mapping': ctx.check(all(isinstance(m, (K().EdgeFlip, K().Isometry)) for m in g), 'only flips and isometries')
    with flip_summary():
        if c is None: l = start(ctx, f, 'curves')
        else:
            S = f.source_triangulation
            w = ctx.ints('w', S.zeta)
            ctx.assume(is_multicurve(S, w))
            l = lam(S, w, 'MultiCurve')
            ctx.assume(the_curve(T, c).intersection(l) == n)
        ctx.check_eq(list(g(l)), list(f(l)), 'acts as before')
    hc = K().HomologyClass(f.source_triangulation, ctx.ints('h', f.source_triangulation.zeta))
    ctx.check(hom_equal(f.target_triangulation, list(g(hc)), list(f(hc))), 'also on homology')

def lemma(ctx, T, word): flip_lemma(ctx, once(('flips21', T, str(word)), lambda: flips_of(mapping(T, word))))

R = {'0': 1, '1': 2, '2': 0, '3': 3, '4': 4, '5': 5}
S = {'0': 3, '3': 0, '1': 4, '4': 1, '2': 5, '5': 2}
H = {'0': ~0, '1': ~1, '2': ~2, '3': 3, '4': 4, '5': 5}
L = {'0': 3, '3': 1, '1': 0, '4': ~2, '2': 5, '5': 4}

def obligations(tier):
    out = []
    quick = tier == 'quick'
    limit = 100 if quick else 900
    def add(name, fn, kind, T, word, **kw):
        b = 'all multicurves' if kind == 'curves' else 'all integral laminations'
        params = dict({'T': T, 'word': word}, **kw)
        if kind is not None: params['kind'] = kind
        out.append(Obligation(name, fn, params, timeout=limit, bound=b))
    D = 'S11+S11'
    for a, b in [([R], [S]), ([S, R], [H]), ([L], [L]), ([L, S], [R, L]), ([H, S, R], [S, R, R, S, H]), ([None], [S])]:
        out.append(Obligation('%s composite %s %s' % (D, a, b), 'composite', {'T': D, 'word1': a, 'word2': b, 'kind': 'any'}, timeout=limit, bound='all integral laminations'))
    flips = {'S11': [2, 0, 1], 'S12a': [2, ~4, 0], 'S12d': [1, ~4, 3], 'S04b': [0, ~4, 3], 'S04d': [2, 0], 'S05a': [0, 8, ~3, 1], 'S21a': [0, ~5, 6, 2]}
    def valid(T, word):
        try: mapping(T, word)
        except AssertionError: return False
        return True
    words = []
    for T, es in flips.items():
        relabel = {str(i): (i + 1) % tri(T).zeta if i % 2 else ~((i + 1) % tri(T).zeta) for i in range(tri(T).zeta)}
        if T in ('S05a', 'S21a') and quick and T != 'S05a': continue
        word = []
        for e in es:
            for cand in (e, e + 1, e - 1, 0, 1, 2, 3, 4):
                if -tri(T).zeta <= cand < tri(T).zeta and valid(T, [cand] + word):
                    word = [cand] + word
                    break
        words.append((T, word, relabel))
    for T, word, relabel in words:
        g = mapping(T, word)
        next_ = next(e.label for e in reversed(g.target_triangulation.edges) if g.target_triangulation.is_flippable(e))
        for w2 in ([next_], [relabel], [next_, relabel][::-1]):
            out.append(Obligation('%s composite %s %s' % (T, word, w2), 'composite', {'T': T, 'word1': word, 'word2': w2, 'kind': 'curves'}, timeout=limit, bound='all multicurves'))
        out.append(Obligation('%s composite %s %s all' % (T, word[-1:], [relabel]), 'composite', {'T': T, 'word1': word[-1:], 'word2': [relabel], 'kind': 'any'}, timeout=limit, bound='all integral laminations'))
        add('%s lemma %s' % (T, word), 'lemma', None, T, word)
        long = [relabel] + word + [None]
        if valid(T, long):
            for negative in (False, True): add('%s slices %s %s' % (T, long, negative), 'slices', 'curves', T, long, negative=negative)
            add('%s encode %s' % (T, long), 'encode', 'curves', T, long)
    # Mapping classes.
    add(D + ' power L', 'power', 'any', D, [L] if mapping(D, [L]).target_triangulation == tri(D) else [R], bound=5)
    for word in ([R, S], [S, H, R], [H, S]): add('%s power %s' % (D, word), 'power', 'any', D, word, bound=4 if quick else 9)
    for word in ([R, S, H, R, S], [S, H, R]):
        for negative in (False, True): add('%s slices %s %s' % (D, word, negative), 'slices', 'any', D, word, negative=negative)
    add('%s encode' % D, 'encode', 'any', D, [R, None, S, H])
    for word in ([{'0': 0}, 1, {'0': 1}, 0], [{'0': 2}, 1], [{'1': 0}, 2]):
        if not valid('S11', word): continue
        add('S11 encode %s' % word, 'encode', 'curves', 'S11', word)
        if mapping('S11', word).target_triangulation == tri('S11'): add('S11 power %s' % word, 'power', 'curves', 'S11', word, bound=2 if quick else 4)
    for T, word in [('S11', [{'multi': [1]}]), ('S12a', [{'multi': [~3]}]), ('S04b', [{'multi': [0]}])]:
        if valid(T, word): add('%s encode %s' % (T, word), 'encode', 'curves', T, word)
    for a, b in [('S12a', 'S12b'), ('S11', 'S03'), ('S12a', 'S11'), ('S04a', 'S12d')]:
        word = [next(e.label for e in tri(a).edges if tri(a).is_flippable(e))]
        out.append(Obligation('%s %s refused' % (a, b), 'refused', {'T': a, 'word': word, 'other': b}, timeout=limit, bound='all integral laminations'))
    # Rewriting.
    for T in ['S12a', 'S12d', 'S04b', 'S04d']:
        U = tri(T)
        multis = [[e.label, f.label] for e in U.edges for f in U.edges if e.index < f.index and e.sign() != f.sign() and U.is_flippable(e) and U.is_flippable(f) and len({U.triangle_lookup[x] for x in (e, ~e, f, ~f)}) == 4]
        for m in multis[:1 if quick else None]: add('%s flip_mapping %s' % (T, m), 'rewritten', None, T, [{'multi': m}], how='flip_mapping')
    for T in ['S11', 'S12e', 'S12d'] if quick else ['S11', 'S12a', 'S12d', 'S12e', 'S04b']:
        for c in curves(T)[:1 if quick else 2]:
            label = next(e.label for e in tri(T).edges if tri(T).vertex_lookup[e] == tri(T).vertex_lookup[~e] and list(tri(T).edge_curve(e)) == c)
            for k in (1, 2, -2, 3) if T == 'S11' or not quick else (-2, ):
                for n in [1, 2] if T == 'S11' or not quick else [1]:
                    add('%s flip_mapping %s^%d i=%d' % (T, c, k, n), 'rewritten', None, T, [[label, k]], how='flip_mapping', c=c, n=n)
    for T, word in [('S11', [0]), ('S11', [1, 2]), ('S11', [{'0': 1}, 1, 0]), ('S03', [0]), ('S12a', [3]), ('S12a', [2, 3]), ('S04b', [0]), ('S12d', [4])]:
        if valid(T, word): add('%s simplify %s' % (T, word), 'rewritten', None, T, word, how='simplify')
    return out
