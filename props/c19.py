''' C19: early-terminating extrema equal the plain ones. '''
from .common import *

PROPERTY = 'C19'
TECHNIQUE = 'symbolic execution of the real utility functions on lists of symbolic integers; z3 decides on every path that the result equals the definition'
BOUNDS = 'values: unbounded integers; list lengths as stated per obligation'

def U(): return curver().kernel.utilities

def maximin(ctx, lengths, lazy):
    lists = [ctx.ints('x%d_' % i, n) for i, n in enumerate(lengths)]
    got = U().maximin(*[(x for x in l) if lazy else l for l in lists])
    ctx.check(got == smax(*[smin(*l) for l in lists]), 'maximum of the minima')

def maximin_raises(ctx, lengths):
    lists = [ctx.ints('x%d_' % i, n) for i, n in enumerate(lengths)]
    try: U().maximin(*lists)
    except ValueError:
        ctx.check(True, 'raises')
        return
    ctx.fail('an empty list has no minimum')

KEYS = {'id': lambda x: x, 'neg': lambda x: -x, 'abs': abs, 'third': lambda x: 3 * x - 1}

def maximum(ctx, n, key, bound):
    xs = ctx.ints('x', n)
    k = KEYS[key]
    ub = ctx.int('ub') if bound else None
    if bound: ctx.assume(sand(*[k(x) <= ub for x in xs]))
    items = list(enumerate(xs))
    i, got = U().maximum(iter(items) if bound else items, key=lambda p: k(p[1]), upper_bound=ub)
    ctx.check(got == xs[i], 'an item')
    ctx.check(sand(*[k(x) <= k(got) for x in xs]), 'of maximal value')
    ctx.check(sand(*[k(x) < k(got) for x in xs[:i]]), 'and the first such')

def plain(ctx, n):
    xs = ctx.ints('x', n)
    got = U().maximum(list(xs))
    ctx.check(got == smax(*xs), 'maximum')
    ub = ctx.int('ub')
    ctx.assume(sand(*[x <= ub for x in xs]))
    ctx.check(U().maximum(list(xs), upper_bound=ub) == smax(*xs), 'maximum with a bound')
    got = U().maxes(list(xs))
    ctx.check(sand(*[x == smax(*xs) for x in got]), 'maxes')
    ctx.check(sum((site(x == smax(*xs), 1, 0) for x in xs), 0) == len(got), 'as many as there are')

def maxes(ctx, n, key):
    xs = ctx.ints('x', n)
    k = KEYS[key]
    items = list(enumerate(xs))
    got = U().maxes(items, key=lambda p: k(p[1]))
    indices = [i for i, _ in got]
    ctx.check(indices == sorted(set(indices)) and len(got) > 0, 'in order, once each')
    best = smax(*[k(x) for x in xs])
    ctx.check(sand(*[siff(i in indices, k(x) == best) for i, x in items]), 'exactly the maximal items')

def empty(ctx):
    x = ctx.int('x')
    for f, args in ((U().maxes, ([], )), (U().maximum, ([], )), (U().maximin, ()), (U().cyclic_slice, ([], x)), (U().maximum, ([], abs, x))):
        try: f(*args)
        except ValueError: continue
        ctx.fail('the empty list has no extrema')
    ctx.check(True, 'raises')

def cyclic(ctx, n, kind):
    L = ctx.ints('x', n)
    ctx.assume(sand(*[L[i] != L[j] for i in range(n) for j in range(i)]))
    L = tuple(L) if kind == 'tuple' else list(L)
    x, y = ctx.int('a'), ctx.int('b')
    for args in ((x, y), (x, )):
        try: got = U().cyclic_slice(L, *args)
        except ValueError:
            ctx.check(sand(*[x != z for z in L]), 'raises only when the start is not present')
            continue
        ctx.check(sor(*[x == z for z in L]), 'raises when the start is not present')
        ctx.check(type(got) is type(L), 'same type')
        # Rebuild: follow on from the start until the end or all the way round.
        i = ctx.concretize(sum(site(x == z, j, 0) for j, z in enumerate(L)))
        expected = []
        for j in range(n):
            z = L[(i + j) % n]
            if len(args) == 2 and z == y: break
            expected.append(z)
        ctx.check(len(got) == len(expected) and seq(list(got), expected), 'slice')

def half(ctx, fraction):
    x = ctx.int('x')
    if fraction:
        from fractions import Fraction
        d = 3
        value = E.SymFrac(x, d) if E._cur is not None else Fraction(x, d)
        for got in (U().half(value), U().half * value, value * U().half): ctx.check(2 * got == value, 'half of a fraction')
        return
    for f in (lambda: U().half(x), lambda: U().half * x, lambda: x * U().half):
        try: got = f()
        except ValueError:
            ctx.check(x % 2 == 1, 'raises only on odd integers')
            continue
        ctx.check(x % 2 == 0, 'raises on odd integers')
        ctx.check(2 * got == x, 'half')

class Affine:
    ''' x -> 2x + b or similar, under composition: not commutative. '''
    def __init__(self, a, b): self.a, self.b = a, b
    def __mul__(self, other): return Affine(self.a * other.a, self.a * other.b + self.b)

def product(ctx, n, left):
    bs = ctx.ints('b', n)
    fs = [Affine(2 + i, b) for i, b in enumerate(bs)]
    s = Affine(7, ctx.int('s'))
    got = U().product(iter(fs), start=s, left=left)
    expected = fs[0] if fs else s
    for f in fs[1:]: expected = f * expected if left else expected * f
    ctx.check_eq([got.a, got.b], [expected.a, expected.b], 'product')
    ys = ctx.ints('y', 1)
    ctx.check(U().product(ys) == ys[0], 'product of one')
    ctx.check(U().product([]) == 1, 'empty product')

def obligations(tier):
    out = []
    quick = tier == 'quick'
    def add(h, must=True, **kw): out.append(Obligation('%s %s' % (h, ' '.join('%s=%s' % x for x in kw.items())), h, kw, timeout=60 if quick else 900, bound='all values', must=must))
    for lengths in [[1], [3], [1, 1], [1, 3], [3, 1], [2, 2], [3, 3], [1, 2, 2], [2, 2, 2], [1, 4], [4, 2], [1, 5]] + ([] if quick else [[4, 4], [3, 3, 3], [1, 3, 3, 3], [1, 6], [2, 2, 2, 2]]):
        add('maximin', lengths=lengths, lazy=False); add('maximin', lengths=lengths, lazy=True)
    for lengths in [[0], [1, 0], [0, 1], [2, 2, 0], [1, 0, 1]]: add('maximin_raises', lengths=lengths)
    for key in KEYS:
        for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
            add('maxes', n=n, key=key)
            for bound in (False, True): add('maximum', n=n, key=key, bound=bound)
    for n in (1, 2, 3, 4): add('plain', n=n)
    add('empty')
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
        for kind in ('list', 'tuple'): add('cyclic', n=n, kind=kind)
    for fraction in (False, True): add('half', fraction=fraction)
    for n in (0, 1, 2, 3, 4):
        for left in (True, False): add('product', n=n, left=left)
    return out
