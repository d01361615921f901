''' C25: topological types are invariant and see multiplicities. '''
from .common import *
from .c09 import listed, cones, mapping
from .c07 import decode

PROPERTY = 'C25'
WITNESSES = 120
TECHNIQUE = 'symbolic execution of the real topological_type (with the shortening, crushing and labelling it relies on) on sums of disjoint components with symbolic multiplicities; z3 decides that it is the same after a move, and that if two such sums have the same type then their multiplicities are the same up to order'
BOUNDS = 'multiplicities: unbounded, of at most the stated number of the listed components at once (short after the listed words of flips); the listed moves'
STUBS = ['maximin is the maximum of the minima (C19 decides this)']

def K(): return curver().kernel

def total(ctx, T, word, indices, name='m'):
    parts = [listed(T, word)[i] for i in indices]
    ms = ctx.ints(name, len(parts), lo=0)
    return lam(tri(T), combine([p[2] for p in parts], ms)), parts, ms

def moved(T, move): return once(('25', T, str(move)), lambda: tri(T).encode(decode(T, move)))

def key(t): return (t.node_labels, t.link_labels, t.node_markings)

def invariant(ctx, T, word, indices, move, closed=False):
    l, parts, ms = total(ctx, T, word, indices)
    f = moved(T, move)
    with maximin_summary():
        s, t = l.topological_type(closed=closed), f(l).topological_type(closed=closed)
        ctx.check(s == t, 'the type is invariant')

def refused(ctx, T, word, indices):
    ''' Forgetting the punctures is refused for arcs. '''
    l, parts, ms = total(ctx, T, word, indices)
    arcs = sum((m for p, m in zip(parts, ms) if p[0] == 'arc'), 0)
    with maximin_summary():
        try:
            l.topological_type(closed=True)
            ctx.check(arcs == 0, 'arcs are refused')
        except ValueError: ctx.check(arcs > 0, 'only arcs are refused')

def ordered(xs):
    ''' The values in order, as terms. '''
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i): xs[j], xs[j+1] = smin(xs[j], xs[j+1]), smax(xs[j], xs[j+1])
    return xs

def sees(ctx, T, word, indices):
    ''' Equal types have the same multiplicities of each kind. '''
    l, parts, ms = total(ctx, T, word, indices)
    k, _, ns = total(ctx, T, word, indices, 'n')
    with maximin_summary():
        same = l.topological_type() == k.topological_type()
        if same:
            for kind in ('arc', 'curve', 'peripheral'):
                ctx.check_eq(ordered([m for p, m in zip(parts, ms) if p[0] == kind]), ordered([n for p, n in zip(parts, ns) if p[0] == kind]), 'equal types have the same multiplicities')
        else: ctx.check(sor(*[m != n for m, n in zip(ms, ns)]), 'different types are different')

WORDS = {'S11': [[], [0], [1, 0]], 'S03': [[], [0]], 'S12a': [[], [2], [3, 2]], 'S12d': [[], [1]], 'S12e': [[], [3]], 'S04b': [[], [0]], 'S04d': [[], [2]], 'S04f': [[]], 'S05a': [[], [0]], 'S21a': [[], [0]], 'S11+S03': [[], [0]], 'S11+S11': [[], [0, 3]]}

def obligations(tier):
    quick = tier == 'quick'
    limit = 120 if quick else 1500
    out = []
    def add(name, fn, bound, **params): out.append(Obligation(name, fn, params, timeout=limit, bound=bound))
    for T, words in WORDS.items():
        if quick and T == 'S21a': words = [[0]]
        S = tri(T)
        for word in words:
            try: groups = cones(T, word)
            except AssertionError: continue
            done = []
            moves = [[e.label] for e in S.positive_edges if S.is_flippable(e)]
            for n, cone in enumerate(groups):
                subsets = [[i, j] for i in cone for j in cone if i < j and [i, j] not in done]
                if not (T == 'S12a' and word == [3, 2] or S.zeta > 6): subsets += [c for c in [cone[i:i+3] for i in range(0, len(cone) - 2, 2)] + [[cone[0], cone[-2], cone[-1]]] * (len(cone) > 2) if not quick or T not in ('S12a', 'S04f', 'S04d') or all(listed(T, word)[i][0] == 'arc' for i in c)]
                gap = 1 + len(subsets) // (3 if S.zeta < 9 else 2)
                for k, sub in enumerate(subsets):
                    if quick and (k + n) % gap: continue
                    if sub in done or quick and T == 'S12a' and word == [3, 2] and sub[1] == 15: continue
                    done.append(sub)
                    kinds = [listed(T, word)[i][0] for i in sub]
                    move = moves[(n + k) % len(moves)]
                    add('%s %s %s moved by %s' % (T, word, sub, move), 'invariant', 'all multiplicities', T=T, word=word, indices=sub, move=move)
                    if len(sub) == 2 and (not quick or S.zeta < 6 or (n + k) % (4 if S.zeta == 6 else 9) == 0): add('%s %s %s sees' % (T, word, sub), 'sees', 'all multiplicities', T=T, word=word, indices=sub)
                    if T in ('S11', 'S21a', 'S11+S11'):
                        if 'arc' not in kinds: add('%s %s %s closed moved by %s' % (T, word, sub, move), 'invariant', 'all multiplicities', T=T, word=word, indices=sub, move=move, closed=True)
                        else: add('%s %s %s refused' % (T, word, sub), 'refused', 'all multiplicities', T=T, word=word, indices=sub)
    return out
