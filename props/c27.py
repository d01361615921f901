''' C27: vertex cycles of a multicurve are curves carried by it. '''
from itertools import product as cartesian
from .common import *
from .c13 import corner

PROPERTY = 'C27'
TECHNIQUE = 'symbolic execution of the real vertex_cycles code on multicurves with symbolic weights (the path fixes which corners are used); z3 decides on each path that the corners turned across are used, that no curve is missed and that there is at least one'
BOUNDS = 'multicurves: unbounded weights on the listed triangulations'
STUBS = ['the lamination built from each cycle of edges is shared between paths (it does not depend on the multicurve)']

def K(): return curver().kernel

class shared:
    ''' lamination_from_cut_sequence of concrete sequences is computed once. '''
    def __enter__(self):
        if E._cur is None: return
        cls = K().Triangulation
        self.real = cls.lamination_from_cut_sequence
        real, memo = self.real, _memo
        def lamination_from_cut_sequence(S, sequence):
            sequence = list(sequence)
            key = (tuple(S.signature), tuple(sorted(e.index for e in sequence)))  # Only the number of times that each edge appears matters.
            if key not in memo: memo[key] = once(('27', key), lambda: real(S, sequence))
            return memo[key]
        cls.lamination_from_cut_sequence = lamination_from_cut_sequence
    def __exit__(self, *args):
        if E._cur is not None: K().Triangulation.lamination_from_cut_sequence = self.real
_memo = {}

def used(S, w):
    ''' Twice the number of strands across the corner opposite each edge. '''
    return {e: corner(S, w, e) for e in S.edges}

def strands(S, w):
    ''' Follow the strands of concrete weights: the list of closed paths of oriented edges. '''
    left, out = {(e.index, i) for e in S.positive_edges for i in range(w[e.index])}, []
    while left:
        index, i = min(left)
        edge = next(e for e in S.positive_edges if e.index == index)
        path, start = [], (edge, i)  # Positions from the right as we cross.
        while True:
            left.discard((edge.index, i if edge.sign() == 1 else w[edge.index] - 1 - i))
            path.append(edge)
            x, y, z = S.corner_lookup[~edge]
            if 2 * i < corner(S, w, z): edge = y
            else: edge, i = z, w[z.index] - w[x.index] + i
            if (edge, i) == start: break
        out.append(path)
    return out

def curves_once(T):
    ''' All weights (up to two) of single curves that cross each edge at most once in each direction, with the corners that they use. '''
    def build():
        S, out = tri(T), []
        for w in cartesian(range(3), repeat=S.zeta):
            if not any(w): continue
            if any((w[a.index] + w[b.index] + w[c.index]) % 2 or w[a.index] > w[b.index] + w[c.index] or w[b.index] > w[c.index] + w[a.index] or w[c.index] > w[a.index] + w[b.index] for a, b, c in (t.edges for t in S)): continue
            ps = strands(S, w)
            if len(ps) == 1 and len(set(ps[0])) == len(ps[0]): out.append((w, [e for e in S.edges if corner(S, w, e) > 0]))
        return out
    return once(('27 curves', T), build)

def cycles(ctx, T, complete):
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(is_multicurve(S, w))
    l = lam(S, w, 'MultiCurve')
    with shared(): found = list(l.vertex_cycles())
    corners = used(S, w)
    single = once(('27 single', T), lambda: {})
    for c in found:
        v = tuple(c)
        ctx.check(isinstance(c, K().Curve) and c.triangulation == S and all(0 <= x <= 2 for x in v), 'a curve that crosses each edge at most twice')
        if v not in single: single[v] = len(strands(S, v))
        ctx.check(single[v] == 1, 'one component')
        ctx.check(sand(*[corners[e] > 0 for e in S.edges if corner(S, v, e) > 0]), 'only turns across corners that are used')
    ctx.check(siff(len(found) > 0, sor(*[x > 0 for x in w])), 'there is one unless it is empty')
    if complete:
        have = {tuple(c) for c in found}
        for v, turns in curves_once(T):
            if v not in have: ctx.check(snot(sand(*[corners[e] > 0 for e in turns])), 'every curve that only turns across those corners and crosses each edge at most once each way is reported')

def first(ctx, T):
    ''' The one that vertex_cycle returns. '''
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(sand(is_multicurve(S, w), sor(*[x > 0 for x in w])))
    with shared(): c = lam(S, w, 'MultiCurve').vertex_cycle()
    corners = used(S, w)
    ctx.check(isinstance(c, K().Curve) and len(strands(S, tuple(c))) == 1, 'a curve')
    ctx.check(all(x <= 2 for x in c), 'crosses each edge at most twice')
    ctx.check(sand(*[corners[e] > 0 for e in S.edges if corner(S, tuple(c), e) > 0]), 'only turns across corners that are used')

def obligations(tier):
    quick = tier == 'quick'
    out = []
    for T in SMALL + MEDIUM + DISCONNECTED + ([] if quick else LARGE):
        out.append(Obligation('%s cycles' % T, 'cycles', {'T': T, 'complete': tri(T).zeta <= 6}, timeout=300 if quick else 3000, bound='all multicurves'))
        out.append(Obligation('%s first' % T, 'first', {'T': T}, timeout=300 if quick else 3000, bound='all multicurves'))
    return out
