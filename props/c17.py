''' C17: permutations obey the group laws and their invariants. '''
from .common import *

PROPERTY = 'C17'
TECHNIQUE = 'symbolic execution of the real Permutation code on permutations with symbolic entries (lists and sets in that module accept symbolic entries); z3 decides the laws on every path'
BOUNDS = 'all permutations on N points and all exponents within the stated bounds'

class SymList(list):
    ''' A list that can be indexed by a symbolic integer (which must be decided to be within range). '''
    def __getitem__(self, i):
        if isinstance(i, E.SymInt):
            n = len(self)
            if not sand(i >= -n, i < n): raise IndexError('list index out of range')
            out = list.__getitem__(self, n - 1)
            for j in range(n - 1): out = site(sor(i == j, i == j - n), list.__getitem__(self, j), out)
            return out
        return list.__getitem__(self, i)

class SymSet:
    ''' A set that may contain symbolic integers. '''
    def __init__(self, items=()):
        self.items = []
        for x in items: self.add(x)
    def add(self, x):
        if E.is_sym(x) or not any(not E.is_sym(y) and x == y for y in self.items): self.items.append(x)
    def __contains__(self, x): return bool(sor(*[x == y for y in self.items]))
    def __iter__(self): return iter(self.items)
    def __eq__(self, other):
        mine, theirs = self.items, other.items if isinstance(other, SymSet) else list(other)
        return bool(sand(*[sor(*[x == y for y in theirs]) for x in mine], *[sor(*[x == y for y in mine]) for x in theirs]))
    def __len__(self):
        n = 0
        for i, x in enumerate(self.items): n = n + site(sor(*[x == y for y in self.items[:i]]), 0, 1)
        return E.cur().concretize(n)

class symbolic:
    ''' The module under test with these lists and sets. '''
    def __enter__(self):
        if E._cur is None: return
        import curver.kernel.permutation as m
        self.m, self.P = m, m.Permutation
        m.set = SymSet
        self.init = self.P.__init__
        init = self.init
        def wrapped(self, perm):
            init(self, perm)
            if type(self.perm) is list and any(E.is_sym(x) for x in self.perm): self.perm = SymList(self.perm)
        self.P.__init__ = wrapped
    def __exit__(self, *args):
        if E._cur is None: return
        del self.m.__dict__['set']
        self.P.__init__ = self.init

def perm(ctx, name, n):
    xs = ctx.ints(name, n, 0, n - 1)
    ctx.assume(sand(*[xs[i] != xs[j] for i in range(n) for j in range(i)]))
    return curver().kernel.Permutation(list(xs)), xs

def at(xs, i):
    out = xs[-1]
    for j in range(len(xs) - 1): out = site(i == j, xs[j], out)
    return out

def run(ctx, fn, **kw):
    with symbolic(): return globals()[fn](ctx, **kw)

def compose(ctx, n):
    p, xs = perm(ctx, 'p', n)
    q, ys = perm(ctx, 'q', n)
    r = p * q
    ctx.check_eq(list(r), [at(xs, y) for y in ys], 'composition')
    ctx.check(sand(*[r(i) == p(q(i)) for i in range(n)]), 'acts as the composite')
    i = ctx.int('i', 0, n - 1)
    ctx.check(p(i) == at(xs, i), 'application')
    ctx.check(siff(p == q, seq(xs, ys)), 'equality')

def inverse(ctx, n):
    p, xs = perm(ctx, 'p', n)
    for q in (p.inverse(), ~p, p**-1):
        ctx.check(sand(*[at(xs, y) == i for i, y in enumerate(q)]), 'inverse')
        ctx.check_eq(list(p * q), list(range(n)), 'cancels')

def power(ctx, n, k):
    p, xs = perm(ctx, 'p', n)
    e = ctx.int('e', -k, k)
    got = list(p**e)
    e = ctx.concretize(e)
    out = list(range(n))
    for _ in range(abs(e)): out = [at(xs, y) for y in out]
    if e >= 0: ctx.check_eq(got, out, 'power')
    else: ctx.check(sand(*[at(out, y) == i for i, y in enumerate(got)]), 'negative power')

def order(ctx, n):
    p, xs = perm(ctx, 'p', n)
    o = p.order()
    ctx.check(o >= 1, 'positive')
    out = list(range(n))
    for j in range(1, o + 1):
        out = [at(xs, y) for y in out]
        ctx.check(seq(out, list(range(n))) if j == o else snot(seq(out, list(range(n)))), 'least power that is the identity')

def parity(ctx, n):
    p, _ = perm(ctx, 'p', n)
    q, _ = perm(ctx, 'q', n)
    ctx.check(siff((p * q).is_even(), siff(p.is_even(), q.is_even())), 'parity is multiplicative')

def transposition(ctx, n):
    i, j = ctx.int('i', 0, n - 1), ctx.int('j', 0, n - 1)
    ctx.assume(i < j)
    p = curver().kernel.Permutation([site(x == i, j, site(x == j, i, x)) for x in range(n)])
    ctx.check(snot(p.is_even()), 'transpositions are odd')
    ctx.check(p.order() == 2, 'of order two')
    ctx.check(list(p.cycle_lengths()) == [1] * (n - 2) + [2], 'cycle lengths')
    ctx.check(curver().kernel.Permutation(list(range(n))).is_even(), 'the identity is even')

def cycles(ctx, n):
    p, xs = perm(ctx, 'p', n)
    got = p.cycle_lengths()
    ctx.check(sum(got) == n and list(got) == sorted(got) and all(l > 0 for l in got), 'a partition, in order')
    # The number of points on cycles of each length.
    firsts = []  # The length of the cycle through each point.
    for i in range(n):
        x, length = xs[i], n
        images = []
        for _ in range(n):
            images.append(x)
            x = at(xs, x)
        for j in reversed(range(n)): length = site(images[j] == i, j + 1, length)
        firsts.append(length)
    ctx.check(sand(*[sum((site(l == d, 1, 0) for l in firsts), 0) == d * got.count(d) for d in range(1, n + 1)]), 'cycle lengths')
    o = 1
    from math import lcm
    for l in got: o = lcm(o, l)
    ctx.check(p.order() == o, 'order from cycles')

def conjugate(ctx, n, fixed=None):
    p, xs = perm(ctx, 'p', n) if fixed is None else (curver().kernel.Permutation(list(fixed)), list(fixed))
    q, ys = perm(ctx, 'q', n)
    answer = p.is_conjugate_to(q)
    if answer:  # The numbers of fixed points of all powers determine the conjugacy class.
        good = True
    a, b = list(range(n)), list(range(n))
    counts = []
    for _ in range(1, n + 1):
        a, b = [at(xs, y) for y in a], [at(ys, y) for y in b]
        counts.append(sum((site(y == i, 1, 0) for i, y in enumerate(a)), 0) == sum((site(y == i, 1, 0) for i, y in enumerate(b)), 0))
    ctx.check(siff(answer, sand(*counts)), 'conjugate exactly when')

def conjugates(ctx, n):
    p, _ = perm(ctx, 'p', n)
    q, _ = perm(ctx, 'q', n)
    ctx.check((q * p * ~q).is_conjugate_to(p), 'a conjugate is conjugate')

def matrix(ctx, n):
    p, xs = perm(ctx, 'p', n)
    q, ys = perm(ctx, 'q', n)
    P, Q, R = p.matrix(), q.matrix(), (p * q).matrix()
    ctx.check(P.shape == (n, n), 'shape')
    ctx.check(sand(*[(P[i][j] == 1) if True else None for j in range(n) for i in range(n) if bool(xs[j] == i)]), 'image of each basis vector')
    ctx.check((P.dot(Q) == R).all(), 'matrix of a product')

def sizes(ctx, n, m):
    p, _ = perm(ctx, 'p', n)
    q, _ = perm(ctx, 'q', m)
    ctx.check(not p.is_conjugate_to(q), 'different sizes are not conjugate')
    for f in (lambda: p * q, lambda: p == q):
        try: f()
        except ValueError: continue
        ctx.fail('mixing sizes')

def invalid(ctx, n):
    xs = ctx.ints('x', n, -1, n)
    try: curver().kernel.Permutation(list(xs))
    except AssertionError:
        ctx.check(snot(sand(*[sor(*[x == i for x in xs]) for i in range(n)])), 'refuses only non-permutations')
        return
    ctx.check(sand(*[sor(*[x == i for x in xs]) for i in range(n)]), 'refuses non-permutations')

def obligations(tier):
    out = []
    quick = tier == 'quick'
    def add(fn, must=True, **kw): out.append(Obligation('%s %s' % (fn, ' '.join('%s=%s' % x for x in kw.items())), 'run', dict(kw, fn=fn), timeout=80 if quick else 1500, bound='all permutations', must=must))
    for fn, small, large in [('compose', 6, 9), ('inverse', 5, 6), ('order', 6, 7), ('parity', 4, 5), ('transposition', 6, 9), ('cycles', 5, 6), ('conjugate', 4, 5), ('conjugates', 4, 5), ('matrix', 4, 5), ('invalid', 4, 6)]:
        for n in range(1 if fn not in ('transposition', ) else 2, (small if quick else large) + 1): add(fn, n=n)
    for n, k in [(2, 7), (3, 8), (4, 6), (5, 3)] + ([] if quick else [(4, 14), (5, 9)]): add('power', n=n, k=k)
    for fixed in [[1, 0, 2, 3, 4], [1, 0, 3, 2, 5, 4]] + ([] if quick else [[1, 0, 2, 3, 4, 5], [1, 2, 0, 4, 5, 3], [1, 2, 0, 3, 4, 5], [1, 0, 3, 4, 2, 5]]): add('conjugate', n=len(fixed), fixed=fixed)
    for n, m in [(1, 2), (3, 2), (2, 3)]: add('sizes', n=n, m=m)
    return out
