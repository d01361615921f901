''' C08: the piecewise-linear action agrees with the action on its whole cell. '''
from .common import *
from .c04 import curves, the_curve
from .c05 import arcs, the_arc
from .c07 import decode

PROPERTY = 'C08'
WITNESSES = 80
TECHNIQUE = 'symbolic execution of the real pl_action code on an arbitrary multicurve: on every path (cell) the reported matrices are applied to a second arbitrary multicurve satisfying the reported conditions and z3 decides equality with the real action on it'
BOUNDS = 'both multicurves: unbounded weights (for twist powers beyond +-1: absolute slope below the stated bound, for larger surfaces combinations of a listed system of curves); powers |k| <= 4; the listed triangulations, moves and words'

def mapping(T, word):
    def build():
        S = tri(T)
        f = S.encode(decode(T, word))
        for item in f:
            for g in (item.flip_mapping(), ): g.source_triangulation.vertices
        return f
    return once(('word', T, str(word)), build)

def lemma(ctx, T, word): flip_lemma(ctx, once(('flips', T, str(word)), lambda: flips_of(mapping(T, word))))

def cell(ctx, T, word, **kw):
    with flip_summary(): return cell_(ctx, T, word, **kw)

def cell_(ctx, T, word, slope=None, system=None, n=None):
    S, f = tri(T), mapping(T, word)
    MultiCurve = curver().kernel.MultiCurve
    if system is None:
        w = ctx.ints('w', S.zeta)
        ctx.assume(is_multicurve(S, w))
    else: w = combine(system, ctx.ints('m', len(system), lo=0))
    A = MultiCurve(S, list(w))
    if slope is not None:
        c = the_curve(T, slope[0])
        i = c.intersection(A)
        if n is None: ctx.assume(i > 0)
        else:
            ctx.assume(i == n)
            ctx.concretize(i)
        if n != 0:
            s = c.slope(A)
            ctx.assume(sand(s < slope[1], s > -slope[1]))
            ctx.concretize_quotient(abs(s.numerator), s.denominator)
    F = f.pl_action(A)
    action, condition = constant(ctx, F.action), constant(ctx, F.condition)
    ctx.check(action.shape == (S.zeta, S.zeta) and condition.shape[1] == S.zeta, 'shape')
    ctx.check(sand(*[dot(row, w) >= 0 for row in condition]), 'the multicurve is in its cell')
    for row in condition: ctx.assume(dot(row, w) >= 0)  # Just decided.
    image = [dot(row, w) for row in action]
    ctx.check_eq(image, f(A).geometric, 'image of the multicurve')
    ctx.check_eq(F(w), image, 'image by calling')
    x = ctx.ints('x', S.zeta)
    ctx.assume(is_multicurve(S, x))
    ctx.assume(sand(*[dot(row, x) >= 0 for row in condition]))
    ctx.check_eq([dot(row, x) for row in action], f(MultiCurve(S, list(x))).geometric, 'image of every multicurve of the cell')

def dot(row, v): return sum((r * x for r, x in zip(row, v)), 0)

def constant(ctx, M):
    ''' The entries depend on the path only. '''
    for i in range(M.shape[0]):
        for j in range(M.shape[1]):
            if E.is_sym(M[i, j]): M[i, j] = ctx.concretize(M[i, j] + 0)
    return M

def obligations(tier):
    out = []
    quick = tier == 'quick'
    limit = 60 if quick else 900
    lemmas = set()
    def add(T, word, bound='all multicurves', must=True, **kw):
        out.append(Obligation('%s %s %s' % (T, word, ' '.join('%s=%s' % (k, v) for k, v in kw.items() if k != 'system')), 'cell', dict({'T': T, 'word': word}, **kw), timeout=limit, bound=bound, must=must))
        if (T, str(word)) not in lemmas and flips_of(mapping(T, word)):
            lemmas.add((T, str(word)))
            out.append(Obligation('%s %s flips' % (T, word), 'lemma', {'T': T, 'word': word}, timeout=limit, bound='all multicurves'))
    for T in SMALL + MEDIUM + LARGE + DISCONNECTED:
        S = tri(T)
        flippable = [e.label for e in S.edges if S.is_flippable(e)]
        step = 1 if not quick or S.zeta == 3 else 4 if S.zeta == 6 else 7
        for e in flippable[::step]: add(T, [e])
    for T, w in [('S11', [{'0': 1}]), ('S11', [{'0': 1}, 2]), ('S11', [1, {'0': 2}, 0]), ('S11', [0, 1]), ('S11', [2, 0, 1]), ('S12e', [{'0': 1, '1': 0, '2': 2, '3': 3, '4': ~4, '5': 5}]), ('S12a', [{'0': 1, '1': 3, '3': 0, '2': 2, '4': ~5, '5': 4}, 3])]: add(T, w)
    for T in ['S12a', 'S12d', 'S04b'] + ([] if quick else ['S05a', 'S21a', 'S13a']):
        S = tri(T)
        flippable = [e.label for e in S.positive_edges if S.is_flippable(e)]
        found = 0
        for a in flippable:
            for b in flippable:
                if a < b and found < (2 if S.zeta == 6 else 1) and not ({S.triangle_lookup[x] for x in (a, ~a)} & {S.triangle_lookup[x] for x in (b, ~b)}):
                    add(T, [{'multi': [a, ~b]}]); found += 1
        if S.zeta == 6: add(T, [flippable[1], flippable[0]])
    for T in ['S11'] + (['S12e', 'S12d'] if quick else ['S12a', 'S12d', 'S12e', 'S04b', 'S04e']):
        for c in curves(T)[:1 if quick and T == 'S12d' else 2]:
            label = next(e.label for e in tri(T).edges if tri(T).vertex_lookup[e] == tri(T).vertex_lookup[~e] and list(tri(T).edge_curve(e)) == c)
            for k in (1, -1, 2, -2, 3, -3, 4) if T == 'S11' or not quick else (1, -2, 3) if T == 'S12e' else (2, ):
                if abs(k) == 1: add(T, [[label, k]])
                else:
                    if k in (2, -2, 3): add(T, [[label, k]], bound='all multicurves', slope=[c, 0], n=0)
                    for n in ([None] if T == 'S11' else [1] if quick and T == 'S12d' else [1, 2]): add(T, [[label, k]], bound='|slope| < %d' % (abs(k) + 2), slope=[c, abs(k) + 2], n=n, must=T == 'S11')
    for T in ['S03', 'S12e', 'S04c'] if quick else ['S03', 'S03f'] + MEDIUM:
        for a in arcs(T)[:1]:
            for k in (1, -1, 2, 3, -2) if T == 'S03' else (1, -1): add(T, [[a, k]], must=T == 'S03')
    return out
