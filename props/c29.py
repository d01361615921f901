''' C29: mapping classes permute punctures as they move peripheral curves. '''
from .common import *
from .c13 import multiplicity, peripheral_curve, vertices

PROPERTY = 'C29'
TECHNIQUE = 'symbolic execution of the real moves on laminations with symbolic weights; z3 decides that the number of peripheral curves around each vertex (recomputed from the corners) is carried by the reported vertex map'
BOUNDS = 'weights: unbounded (arbitrary integral laminations for flips, multi-flips and isometries; arbitrary multicurves for twists and half-twists, using the summary of flips on multicurves that is decided for each flip used); the listed triangulations and words'
STUBS = ['flips on multicurves are summarised by max(a + c, b + d) - e inside of twists and half-twists (lemma obligations decide that the real code agrees)']

def mapping(T, word):
    ''' word is a list accepted by encode (sets and label dictionaries given as lists). '''
    def build():
        seq = []
        for x in word:
            if isinstance(x, (list, tuple)) and x and x[0] == 'multi': seq.append(set(x[1:]))
            elif isinstance(x, (list, tuple)) and x and x[0] == 'label': seq.append({i: y for i, y in enumerate(x[1:])})
            elif isinstance(x, (list, tuple)): seq.append(tuple(x))
            else: seq.append(x)
        return tri(T).encode(seq)
    return once(('mapping', T, repr(word)), build)

def carried(ctx, T, word, kind):
    f = mapping(T, word)
    S, U = f.source_triangulation, f.target_triangulation
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_multicurve(S, w) if kind == 'curves' else is_integral(S, w))
    l = lam(S, w)
    if kind == 'curves':
        with flip_summary(): image = f(l)
    else: image = f(l)
    vmap = once(('vertex map', T, repr(word)), lambda: f.vertex_map())
    ctx.check(sorted(vmap) == vertices(S) and sorted(vmap.values()) == vertices(U), 'a bijection between the vertices')
    for v in vertices(S):
        ctx.check_eq(multiplicity(U, list(image), vmap[v]), multiplicity(S, w, v), 'the peripheral curves are carried along the vertex map')
    if kind != 'curves':
        # Ends of arcs at vertices: an edge of the triangulation joins the images of its ends.
        back = once(('vertex map inverse', T, repr(word)), lambda: f.inverse().vertex_map())
        ctx.check(all(back[vmap[v]] == v for v in vmap), 'the inverse has the inverse vertex map')
    if f.source_triangulation == f.target_triangulation:
        perm = f.vertex_permutation()
        order = vertices(S)
        ctx.check([order[perm(i)] for i in range(len(order))] == [vmap[v] for v in order], 'the permutation')

def around(ctx, T, word):
    ''' Multiples of a peripheral curve go to multiples of the peripheral curve; being peripheral is preserved. '''
    f = mapping(T, word)
    S, U = f.source_triangulation, f.target_triangulation
    vmap = once(('vertex map', T, repr(word)), lambda: f.vertex_map())
    ms = ctx.ints('m', len(vertices(S)), lo=0)
    w = combine([peripheral_curve(S, v) for v in vertices(S)], ms)
    image = f(lam(S, w))
    ctx.check_eq(list(image), combine([peripheral_curve(U, vmap[v]) for v in vertices(S)], ms), 'peripheral curves go to peripheral curves')
    with maximin_summary(): ctx.check(bool(image.is_peripheral()), 'being peripheral is preserved')

def composite(ctx, T, word1, word2):
    ''' Multiplicativity, with the peripheral curves counted symbolically. '''
    g = mapping(T, word2)
    S = g.source_triangulation
    f = once(('second', T, repr(word1), repr(word2)), lambda: g.target_triangulation.encode([tuple(x) if isinstance(x, (list, tuple)) else x for x in word1]))
    fg = once(('both', T, repr(word1), repr(word2)), lambda: f * g)
    a, b, c = [once(('vm', k, T, repr(word1), repr(word2)), h.vertex_map) for k, h in (('g', g), ('f', f), ('fg', fg))]
    ctx.check(all(c[v] == b[a[v]] for v in a), 'multiplicative')
    ms = ctx.ints('m', len(vertices(S)), lo=0)
    w = combine([peripheral_curve(S, v) for v in vertices(S)], ms)
    ctx.check_eq(list(fg(lam(S, w))), combine([peripheral_curve(f.target_triangulation, c[v]) for v in vertices(S)], ms), 'the composite carries the peripheral curves')

def lemma(ctx, T, word): flip_lemma(ctx, once(('flips', T, repr(word)), lambda: flips_of(mapping(T, word))))

def twists(S):
    ''' (edge, power) for twists about proper curves, and half-twists. '''
    out, seen = [], set()
    for e in S.edges:
        if S.vertex_lookup[e] == S.vertex_lookup[~e]:
            c = S.edge_curve(e)
            if isinstance(c, curver().kernel.Curve) and not c.is_peripheral() and c.is_short() and tuple(c) not in seen:
                seen.add(tuple(c))
                out.append((e.label, 1))
        elif e.sign() > 0: out.append((e.label, -1))
    return out

def obligations(tier):
    out = []
    quick = tier == 'quick'
    for T in SMALL + (['S12a', 'S12d', 'S04a', 'S04d'] if quick else MEDIUM + DISCONNECTED):
        S = tri(T)
        words = [[e.label] for e in (S.edges if not quick else S.edges[::2] + S.edges[-1:]) if S.is_flippable(e)]
        multis = [['multi', e.label, f.label] for e in S.edges for f in S.edges if e.index < f.index and S.is_flippable(e) and S.is_flippable(f) and len({S.triangle_lookup[x] for x in (e, ~e, f, ~f)}) == 4]
        words += [[m] for m in (multis if not quick else multis[1:2] if T in ('S04a', 'S11') else [])]
        words.append([['label'] + [~((i + 2) % S.zeta) for i in range(S.zeta)]])
        for word in words:
            out.append(Obligation('%s %s carried' % (T, word), 'carried', {'T': T, 'word': word, 'kind': 'any'}, timeout=100 if quick else 900, bound='all integral laminations'))
            out.append(Obligation('%s %s peripheral' % (T, word), 'around', {'T': T, 'word': word}, timeout=100 if quick else 900, bound='all multiples'))
    for T in ['S11', 'S03', 'S12a', 'S12c', 'S04b', 'S04d', 'S04e'] + ([] if quick else ['S12b', 'S12d', 'S12e', 'S04a', 'S04c', 'S04f', 'S05b', 'S13a', 'S21a']):
        tw = once(('twists', T), lambda: twists(tri(T)))
        if quick: tw = tw[:1] + [x for x in tw if x[1] < 0][:2]
        for x in dict.fromkeys(tw):
            for power in [x[1]] if quick else [1, -1]:
                word = [[x[0], power]]
                out.append(Obligation('%s %s lemma' % (T, word), 'lemma', {'T': T, 'word': word}, timeout=100 if quick else 900, bound='all multicurves'))
                out.append(Obligation('%s %s carried' % (T, word), 'carried', {'T': T, 'word': word, 'kind': 'curves'}, timeout=100 if quick else 900, bound='all multicurves', must=not quick))
            for power in ([2, -3] if quick else [2, -2, 3, -3, 10]):
                out.append(Obligation('%s %s^%d peripheral' % (T, x[0], power), 'around', {'T': T, 'word': [[x[0], power]]}, timeout=100 if quick else 900, bound='all multiples'))
        if len(tw) > 1:
            for a, b in [(tw[0], tw[-1]), (tw[-1], tw[-2])]:
                out.append(Obligation('%s %s %s composite' % (T, a, b), 'composite', {'T': T, 'word1': [list(a)], 'word2': [list(b)]}, timeout=100 if quick else 900, bound='all multiples'))
    return out
