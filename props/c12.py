''' C12: components with multiplicity determine, and are found from, the weights. '''
from .common import *
from .c09 import listed, cones, mapping, component

PROPERTY = 'C12'
WITNESSES = 120
TECHNIQUE = 'symbolic execution of the real shorten, components and promote code on sums of disjoint components with symbolic multiplicities (and on all laminations of a bounded weight); z3 decides that exactly those components are found with exactly those multiplicities'
BOUNDS = 'multiplicities: unbounded, of the listed components (short after the listed words of flips) with at most the stated number of them at once; laminations of bounded weight: all'
STUBS = ['maximin is the maximum of the minima (C19 decides this)']

def K(): return curver().kernel
def flat(l): return tuple(l)

def kind_of(parts, ms):
    ''' The classes that a sum of these can have: (name of the finest). Arcs, curves and their multiplicities. '''
    arcs = [m for p, m in zip(parts, ms) if p[0] == 'arc']
    curves = [m for p, m in zip(parts, ms) if p[0] != 'arc']
    return arcs, curves

def check_class(ctx, l, parts, ms):
    arcs, curves = kind_of(parts, ms)
    A, C = sum(arcs, 0), sum(curves, 0)
    k = K()
    ctx.check(isinstance(l, k.IntegralLamination), 'an integral lamination')
    ctx.check(siff(isinstance(l, k.MultiArc), sand(A > 0, C == 0)), 'a multiarc exactly when all components are arcs')
    ctx.check(siff(isinstance(l, k.MultiCurve), sand(C > 0, A == 0)), 'a multicurve exactly when all components are curves')
    ctx.check(siff(isinstance(l, k.Arc), sand(A == 1, C == 0)), 'an arc exactly when it is one')
    ctx.check(siff(isinstance(l, k.Curve), sand(C == 1, A == 0)), 'a curve exactly when it is one')

def found(ctx, T, word, indices, what):
    S = tri(T)
    parts = [listed(T, word)[i] for i in indices]
    ms = ctx.ints('m', len(parts), lo=0)
    w = combine([p[2] for p in parts], ms)
    l = lam(S, w)
    with maximin_summary():
        if what == 'components':
            got = l.components()
            for p, m in zip(parts, ms):
                entry = [c for c in got if flat(c) == flat(p[2])]
                ctx.check(len(entry) <= 1, 'each once')
                if not entry: ctx.check(m == 0, 'every component is found')
                else:
                    ctx.check_eq(got[entry[0]], m, 'its multiplicity')
                    ctx.check(m > 0, 'only components')
                    ctx.check(isinstance(entry[0], K().Arc if p[0] == 'arc' else K().Curve) and entry[0].triangulation == S, 'its kind')
            ctx.check(all(any(flat(c) == flat(p[2]) for p in parts) for c in got), 'nothing else is found')
            ctx.check_eq(l.num_components(), sum(ms, 0), 'their number')
        elif what == 'short':
            s, f = l.shorten()
            ctx.check(bool(s.is_short()), 'short')
            ctx.check(f.source_triangulation == S and s.triangulation == f.target_triangulation, 'on the target')
            ctx.check_eq(list(f(l)), list(s), 'the image')
            check_class(ctx, s, parts, ms)
        elif what == 'promote':
            p = S(w)
            ctx.check_eq(list(p), w, 'the same weights')
            check_class(ctx, p, parts, ms)
            q = p.promote()
            ctx.check(type(q) is type(p), 'promoting again')
        else:
            arcs = [0 if p[0] != 'arc' else m for p, m in zip(parts, ms)]
            curves = [0 if p[0] == 'arc' else m for p, m in zip(parts, ms)]
            a, c, s = l.multiarc(), l.multicurve(), l.skeleton()
            ctx.check_eq(list(a), combine([p[2] for p in parts], arcs), 'the multiarc')
            ctx.check_eq(list(c), combine([p[2] for p in parts], curves), 'the multicurve')
            ctx.check_eq(list(s), combine([p[2] for p in parts], [smin(m, 1) for m in ms]), 'the skeleton')
            ctx.check(isinstance(a, K().MultiArc) or not any(list(a)), 'the kind of the multiarc')
            ctx.check(isinstance(c, K().MultiCurve) or not any(list(c)), 'the kind of the multicurve')
            peripheral = [m if p[0] == 'peripheral' else 0 for p, m in zip(parts, ms)]
            ctx.check_eq(list(l.peripheral()), combine([p[2] for p in parts], peripheral), 'the peripheral part')

def bounded(ctx, T, total):
    ''' All laminations up to a total weight. '''
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    ctx.assume(sand(is_integral(S, w), sum((smax(x, -x) for x in w), 0) <= total))
    l = lam(S, w)
    with maximin_summary():
        got = l.components()
        ctx.check_eq([sum((m * c(e) for c, m in got.items()), 0) for e in S.positive_edges], w, 'the components sum to it')
        for c, m in got.items():
            ctx.check(sand(m >= 1), 'positive multiplicity')
            ctx.check(isinstance(c, (K().Arc, K().Curve)), 'a kind')
            ctx.check(siff(isinstance(c, K().Arc), sor(*[sor(c(e) < 0, c.dual_weight(e) < 0) for e in S.edges])), 'arcs are those that end')
        s, f = l.shorten()
        ctx.check_eq(list(f(l)), list(s), 'the short image')
        ctx.check(bool(s.is_short()), 'short')

def obligations(tier):
    quick = tier == 'quick'
    limit = 150 if quick else 1500
    out = []
    words = {'S11': [[], [0], [1, 0], [0, 1, 0], [2, 0, 1, 0], [[0, 17]], [1, [0, -25]]], 'S03': [[], [0], [1, 0]], 'S12a': [[], [2], [3, 2], [[2, -40]], [1, [0, 30]], [[0, 20], [2, 3]]], 'S12d': [[], [1], [~4]], 'S12e': [[], [3], [[0, 30]]], 'S04b': [[], [0], [3, 0], [[0, 30]]], 'S04d': [[], [2]], 'S05a': [[], [0], [[0, 25]]], 'S21a': [[], [0], [[0, -30]]], 'S11+S03': [[], [0]], 'S11+S11': [[], [0, 3]]}
    for T, ws in words.items():
        S = tri(T)
        for word in ws:
            if quick and (T, str(word)) in (('S12e', '[[0, 30]]'), ('S12a', '[[0, 20], [2, 3]]')): continue  # Too slow.
            try: groups = cones(T, word)
            except AssertionError: continue
            for n, cone in enumerate(groups):
                twisted = any(isinstance(x, list) for x in word)  # Then the accelerated shortening is involved.
                size = (2 if twisted else 3) if quick and (S.zeta > 3 or twisted) else 4 if quick or S.zeta > 3 and twisted else len(cone)
                subsets = [cone] if len(cone) <= size else [cone[i:i+size] for i in range(0, len(cone), 2) if len(cone[i:i+size]) > 1]
                if len(cone) > size and listed(T, word)[cone[0]][0] == 'curve': subsets = [[cone[0]] + cone[1:][i:i+size-1] for i in range(0, len(cone) - 1, 2)] + [[cone[0]] + cone[-size+1:]]
                if quick and (S.zeta > 3 or twisted): subsets = subsets[(n + len(word)) % 2::2][:1]
                for sub in subsets:
                    for what in ('components', 'short', 'promote', 'parts') if not quick or (n + len(word)) % 3 == 0 or S.zeta == 3 else ('components', 'short'):
                        out.append(Obligation('%s %s %s %s' % (T, word, sub, what), 'found', {'T': T, 'word': word, 'indices': sub, 'what': what}, timeout=limit, bound='all multiplicities'))
    for T, total in [('S11', 6), ('S03', 5), ('S03f', 5), ('S12a', 2), ('S04b', 2)] if quick else [('S11', 12), ('S03', 10), ('S03f', 10), ('S12a', 6), ('S12d', 5), ('S04b', 5), ('S04d', 5), ('S05a', 4), ('S21a', 4)]:
        out.append(Obligation('%s bounded %d' % (T, total), 'bounded', {'T': T, 'total': total}, timeout=limit * 2, bound='total weight at most %d' % total))
    return out
