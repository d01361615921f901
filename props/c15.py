''' C15: straight-line programs behave as the lists they stand for. '''
from .common import *

PROPERTY = 'C15'
TECHNIQUE = 'symbolic execution of the real StraightLineProgram code with symbolic items, index and repetition counts; the oracle is the list built by the same operations; z3 decides every path'
BOUNDS = 'item values: unbounded integers; index: unbounded integer; repetition counts: 0 up to the bound stated per obligation; the listed expression shapes'

def build(ctx, expr, counts):
    ''' The straight-line program and the list. '''
    SLP = curver().kernel.StraightLineProgram
    op, args = expr[0], expr[1:]
    if op == 'lit':
        n = args[0]
        items = ctx.ints('x%d_' % build.n, n)
        build.n += 1
        return SLP(list(items)), list(items)
    if op == 'copy':
        s, l = build(ctx, args[0], counts)
        return SLP(s), l
    if op == '+':
        (s, l), (t, m) = [build(ctx, a, counts) for a in args]
        return s + t, l + m
    if op == 'self+':
        s, l = build(ctx, args[0], counts)
        return s + s, l + l
    if op == 'sum':
        pairs = [build(ctx, a, counts) for a in args]
        return SLP.sum([s for s, _ in pairs]), sum([l for _, l in pairs], [])
    if op in ('*', '*r'):
        s, l = build(ctx, args[0], counts)
        k = ctx.int('k%d' % build.n, 0, counts)
        build.n += 1
        t = s * k if op == '*' else k * s
        return t, l * ctx.concretize(k)
    if op == '^':  # A fixed count.
        s, l = build(ctx, args[0], counts)
        return s * args[1], l * args[1]
    if op == 'rev':
        s, l = build(ctx, args[0], counts)
        return s.reverse(), l[::-1]
    if op == 'map':
        s, l = build(ctx, args[0], counts)
        return s.map(lambda x: 3 * x + 1), [3 * x + 1 for x in l]
    raise ValueError(op)

def make(ctx, expr, counts):
    build.n = 0
    return build(ctx, expr, counts)

def pick(l, i):
    ''' l[i] for a symbolic index that is within range. '''
    out = l[0]
    for j in range(1, len(l)): out = site(sor(i == j, i == j - len(l)), l[j], out)
    return out

def item(ctx, expr, counts):
    s, l = make(ctx, expr, counts)
    i = ctx.int('i')
    try: got = s[i]
    except IndexError:
        ctx.check(sor(i >= len(l), i < -len(l)), 'IndexError only when out of range')
        return
    ctx.check(sand(i < len(l), i >= -len(l)), 'IndexError when out of range')
    ctx.check(got == pick(l, i), 'item')

def order(ctx, expr, counts):
    s, l = make(ctx, expr, counts)
    ctx.check(len(s) == len(l), 'length')
    ctx.check_eq(list(s), l, 'iteration')
    ctx.check_eq(list(reversed(s)), l[::-1], 'reversed iteration')
    ctx.check_eq(list(s.reverse()), l[::-1], 'reverse')
    ctx.check(len(s.reverse()) == len(l), 'length of the reverse')

def member(ctx, expr, counts):
    s, l = make(ctx, expr, counts)
    v = ctx.int('v')
    ctx.check(siff(v in s, sor(*[v == x for x in l])), 'membership')

def depth(ctx, power, n):
    ''' Large repetition counts: only the index is symbolic. '''
    SLP = curver().kernel.StraightLineProgram
    items = ctx.ints('x', n)
    s = SLP(list(items)) * power
    ctx.check(len(s) == power * n, 'length')
    i = ctx.int('i')
    try: got = s[i]
    except IndexError:
        ctx.check(sor(i >= power * n, i < -power * n), 'IndexError only when out of range')
        return
    ctx.check(sand(i < power * n, i >= -power * n), 'IndexError when out of range')
    r = i % n  # Negative indices count from the end: the same residue.
    ctx.check(got == pick(items, r), 'item')

SHAPES = [
    ['lit', 0], ['lit', 1], ['lit', 4], ['copy', ['lit', 3]],
    ['+', ['lit', 2], ['lit', 3]], ['+', ['lit', 0], ['lit', 2]], ['+', ['lit', 2], ['lit', 0]], ['self+', ['lit', 2]],
    ['sum'], ['sum', ['lit', 2]], ['sum', ['lit', 1], ['lit', 2], ['lit', 3]], ['sum', ['lit', 4], ['lit', 2], ['lit', 5]], ['+', ['lit', 5], ['lit', 4]], ['sum', ['lit', 0], ['lit', 2], ['lit', 0], ['lit', 1]],
    ['*', ['lit', 1]], ['*', ['lit', 3]], ['*r', ['lit', 2]], ['*', ['lit', 0]],
    ['rev', ['lit', 3]], ['map', ['lit', 3]],
    ['+', ['*', ['lit', 2]], ['lit', 1]], ['+', ['lit', 1], ['*', ['lit', 2]]],
    ['rev', ['+', ['*', ['lit', 2]], ['lit', 2]]], ['map', ['*', ['+', ['lit', 1], ['lit', 1]]]],
    ['sum', ['*', ['lit', 2]], ['lit', 1], ['rev', ['*', ['lit', 2]]]],
    ]
DEEP = [
    ['*', ['+', ['*', ['lit', 1]], ['lit', 1]]], ['*', ['sum', ['lit', 1], ['*', ['lit', 2]], ['lit', 0]]],
    ['*', ['*', ['lit', 2]]], ['rev', ['*', ['+', ['lit', 1], ['rev', ['*', ['lit', 2]]]]]],
    ['+', ['^', ['+', ['lit', 1], ['lit', 1]], 2], ['self+', ['lit', 1]]], ['sum', ['map', ['self+', ['lit', 2]]], ['^', ['rev', ['lit', 2]], 3], ['lit', 1]],
    ['^', ['+', ['^', ['lit', 1], 3], ['lit', 1]], 2], ['+', ['^', ['lit', 2], 0], ['lit', 1]], ['sum', ['^', ['lit', 2], 0], ['lit', 1]], ['^', ['^', ['lit', 1], 0], 3],
    ]

def obligations(tier):
    out = []
    quick = tier == 'quick'
    def show(e): return '%s(%s)' % (e[0], ', '.join(show(x) if isinstance(x, list) else str(x) for x in e[1:]))
    for shapes, counts in [(SHAPES, 9 if quick else 33), (DEEP, 3 if quick else 6)]:
        for e in shapes:
            for h in ('item', 'order', 'member'):
                out.append(Obligation('%s %s' % (h, show(e)), h, {'expr': e, 'counts': counts}, timeout=60 if quick else 600, bound='all items and indices, counts <= %d' % counts))
    for power, n in [(13, 1), (64, 1), (65, 1), (37, 2)] + ([] if quick else [(255, 1), (256, 2), (341, 1), (100, 3)]):
        out.append(Obligation('power %d of %d' % (power, n), 'depth', {'power': power, 'n': n}, timeout=60 if quick else 600, bound='all items and indices'))
    return out
