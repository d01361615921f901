''' C28: tracing along a lamination returns the curve actually followed. '''
from .common import *
from .c13 import corner

PROPERTY = 'C28'
TECHNIQUE = 'symbolic execution of the real trace_curve on laminations with symbolic weights from a symbolic strand; oracle: an independent tracer that follows the strand (positions on each side of each triangle) and decides whether it can be closed up; z3 decides that both end in the same way with the same curve'
BOUNDS = 'laminations: unbounded weights; all starting strands; at most the stated number of steps'

def follow(ctx, S, w, start, i, limit):
    ''' Follow strand i (counted from the right) across the start edge. Return the edges crossed if it comes back and can be closed up. '''
    pos_, edge, path, backwards = i, start, [start], []
    for _ in range(limit):
        x, y, z = S.corner_lookup[~edge]
        right, ahead = corner(S, w, z), corner(S, w, x)  # Twice the number of strands across the corner to the right (between x and y); ends at the vertex ahead.
        if 2 * pos_ < right: edge = y
        elif sand(ahead < 0, 2 * pos_ < right - ahead): return None
        else:
            pos_ = w[z.index] - (w[x.index] - pos_)
            edge = z
        if edge == start:
            low, high = smin(pos_, i), smax(pos_, i)
            # The ends have to be joined along the edge: nothing else of what was followed may be in the way.
            if sand(*[sor(w[edge.index] - 1 - q < low, w[edge.index] - 1 - q > high) for q in backwards]): return path
            return None
        if edge == ~start: backwards.append(pos_)
        path.append(edge)
    return None

def trace(ctx, T, label, limit, kind):
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_multicurve(S, w) if kind == 'curves' else is_integral(S, w))
    e = curver().kernel.Edge(label)
    i = ctx.int('i', 0)
    ctx.assume(i < w[e.index])
    L = lam(S, w, 'MultiCurve' if kind == 'curves' else 'IntegralLamination')
    path = follow(ctx, S, w, e, i, limit)
    try: c = L.trace_curve(label, i, limit)
    except ValueError: c = None
    if path is None: ctx.check(c is None, 'an error when the strand cannot be closed up in this many steps')
    else:
        ctx.check(c is not None, 'a curve when the strand can be closed up')
        counts = [sum(1 for f in path if f.index == j) for j in range(S.zeta)]
        ctx.check(isinstance(c, curver().kernel.Curve) and c.triangulation == S, 'a curve')
        ctx.check_eq(list(c), counts, 'the curve that was followed')
        ctx.check(bool(is_multicurve(S, counts)), 'an embedded curve')

def obligations(tier):
    quick = tier == 'quick'
    out = []
    for T in SMALL + MEDIUM + LARGE[:2 if quick else None]:
        S = tri(T)
        small = S.zeta == 3
        labels = [e.label for e in S.edges]
        if quick and not small: labels = [x for x in labels if x in (0, 1, -5, -2)] if S.zeta == 6 else labels[::7]
        for label in labels:
            for kind in ('curves', 'any'):
                if kind == 'any' and quick and not small and label != labels[0]: continue
                for limit in ((2, 5, 8) if small else ((3, 10) if kind == 'curves' and S.zeta == 6 and label == 0 or T.startswith('S04') and kind == 'curves' else (3, 5) if kind == 'curves' else (3, 4))) if quick else ((1, 3, 6, 10, 14) if small else (3, 6, 9)):
                    out.append(Obligation('%s %d %s %d' % (T, label, kind, limit), 'trace', {'T': T, 'label': label, 'limit': limit, 'kind': kind}, timeout=200 if quick else 1500, bound='%d steps' % limit))
    return out
