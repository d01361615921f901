''' C16: signatures, packages, pickles and base 64 round-trip. '''
import copy
import pickle

from .common import *
from .c04 import curves, the_curve
from .c05 import arcs, the_arc
from .c07 import decode
from . import c17

PROPERTY = 'C16'
TECHNIQUE = 'symbolic execution of the real encoding / decoding code on symbolic integers, permutations, edge labels, twist powers and weights; z3 decides that each round trip is the identity'
BOUNDS = 'base 64: all integers below 64^d for the stated d; permutation indices: all permutations of the stated number of points; signatures: all labellings of S_{1,1}, all transpositions and re-orientations of two labels on the larger triangulations; packages: all twist powers (unbounded), all weights (unbounded) of laminations and homology classes'

class Digits:
    ''' The alphabet, with a private character for each symbolic digit. (That the real alphabet is faithful is its own obligation.) '''
    def __init__(self, real): self.real, self.values = real, {}
    def __getitem__(self, r):
        if not E.is_sym(r): return self.real[r]
        if not sand(r >= -len(self.real), r < len(self.real)): raise IndexError('string index out of range')
        c = chr(0xE000 + len(self.values))
        self.values[c] = r
        return c
    def index(self, c): return self.values[c] if c in self.values else self.real.index(c)
    find = index
    def __contains__(self, c): return c in self.values or c in self.real
    def __iter__(self): return iter(self.real)
    def __len__(self): return len(self.real)

class digits:
    def __enter__(self):
        if E._cur is None: return
        self.u = curver().kernel.utilities
        self.real = self.u.ALPHABET
        self.u.ALPHABET = Digits(self.real)
    def __exit__(self, *args):
        if E._cur is None: return
        self.u.ALPHABET = self.real

def alphabet(ctx):
    u = curver().kernel.utilities
    n = ctx.int('n', 0, 63)
    s = u.b64encode(n)
    ctx.check(u.b64decode(s) == n, 'one digit')
    ctx.check('_' not in s and len(s) <= 1, 'does not use the separator')

def base64(ctx, d):
    u = curver().kernel.utilities
    n = ctx.int('n', 0, 64**d - 1)
    with digits():
        s = u.b64encode(n)
        ctx.check(u.b64decode(s) == n, 'round trip')
        ctx.check(len(s) <= d, 'no longer than needed')

def from_index(ctx, n):
    from math import factorial
    P = curver().kernel.Permutation
    i = ctx.int('i', 0, factorial(n) - 1)
    p = P.from_index(n, i)
    ctx.check(sorted(p) == list(range(n)), 'a permutation')
    ctx.check(p.index() == i, 'index of the permutation with that index')

def index(ctx, n):
    from math import factorial
    P = curver().kernel.Permutation
    with c17.symbolic():
        p, xs = c17.perm(ctx, 'p', n)
        i = p.index()
        ctx.check(sand(i >= 0, i < factorial(n)), 'range of the index')
    i = ctx.concretize(i) if E.is_sym(i) else i
    ctx.check_eq(list(P.from_index(n, i)), xs, 'permutation with the index of a permutation')

def ordered(ctx, n):
    ''' Indices number the permutations in sorted order. '''
    from math import factorial
    P = curver().kernel.Permutation
    i = ctx.int('i', 0, factorial(n) - 2)
    ctx.check(list(P.from_index(n, i)) < list(P.from_index(n, i + 1)), 'in order')

def signature(ctx, T):
    ''' All labellings of a triangulation with six oriented edges. '''
    C = curver()
    xs = ctx.ints('p', 6, 0, 5)
    ctx.assume(sand(*[xs[i] != xs[j] for i in range(6) for j in range(i)]))
    labels = [ctx.concretize(x) - 3 for x in xs]
    S = C.create_triangulation([tuple(labels[:3]), tuple(labels[3:])])
    sig(ctx, S)

def sig(ctx, S):
    C = curver()
    U = C.triangulation_from_sig(S.sig())
    ctx.check(U == S and U.signature == S.signature, 'triangulation with the signature of a triangulation')
    ctx.check(U.sig() == S.sig(), 'signature')
    ctx.check([list(t.labels) for t in U] == [list(t.labels) for t in S], 'same triangles')
    ctx.check(pickle.loads(pickle.dumps(S)) == S and copy.deepcopy(S) == S, 'pickled triangulation')
    ctx.check(C.create_triangulation(S.package()[0]) == S, 'package of a triangulation')

def relabelled(ctx, T):
    S = tri(T)
    i, j = ctx.int('i', 0, S.zeta - 1), ctx.int('j', 0, S.zeta - 1)
    flip_i, flip_j = ctx.bool('f'), ctx.bool('g')
    ctx.assume(i <= j)
    i, j, flip_i, flip_j = ctx.concretize(i), ctx.concretize(j), bool(flip_i), bool(flip_j)
    m = list(range(S.zeta))
    m[i], m[j] = (~j if flip_i else j), (~i if flip_j else i)
    if i == j: m[i] = ~i if flip_i else i
    new = lambda x: m[x] if x >= 0 else ~m[~x]
    sig(ctx, curver().create_triangulation([tuple(new(e.label) for e in t) for t in S]))

def same(ctx, f, g, S, what):
    ctx.check(type(f) is type(g), 'kind of %s' % what)
    ctx.check(f.source_triangulation == g.source_triangulation and f.target_triangulation == g.target_triangulation, 'ends of %s' % what)
    ctx.check(len(f) == len(g), 'length of %s' % what)
    for a, b in zip(f, g):
        ctx.check(type(a) is type(b), 'moves of %s' % what)
        ctx.check(bool(a == b), 'moves of %s are equal' % what)
        for name in ('power', 'edge', 'edges', 'label_map'):
            if hasattr(a, name): ctx.check(bool(getattr(a, name) == getattr(b, name)), '%s in %s' % (name, what))

def package(ctx, T, word):
    ''' A word in which powers given as None are symbolic. '''
    S = tri(T)
    items = []
    for i, x in enumerate(decode(T, word)):
        if isinstance(x, tuple) and x[1] is None:
            k = ctx.int('k%d' % i)
            ctx.assume(k != 0)
            x = (x[0], k)
        items.append(x)
    f = S.encode(items)
    for g, what in ((f, 'the encoding'), (f.inverse(), 'the inverse')):
        same(ctx, g, g.source_triangulation.encode(g.package()), S, 'package of ' + what)
        same(ctx, g, pickle.loads(pickle.dumps(g)), S, 'pickle of ' + what)
        same(ctx, g, copy.deepcopy(g), S, 'copy of ' + what)
    for move in f: same(ctx, move.encode(), move.source_triangulation.encode([move.package()]), S, 'package of a move')

def vectors(ctx, T, cls, kind):
    S = tri(T)
    w = ctx.ints('w', S.zeta)
    x = getattr(curver().kernel, cls)(S, list(w))
    for y in (pickle.loads(pickle.dumps(x)), copy.deepcopy(x), copy.copy(x)):
        ctx.check(type(y) is type(x), 'kind')
        ctx.check_eq(list(y), w, 'weights')
        ctx.check(y.triangulation == S, 'triangulation')
        ctx.check(bool(x == y), 'equal')

def others(ctx):
    ''' Pickles of the concrete structures, over every index. '''
    P = curver().kernel.Permutation
    i = ctx.int('i', 0, 23)
    p = P.from_index(4, i)
    q = pickle.loads(pickle.dumps(p))
    ctx.check(list(p) == list(q) and p == q and p.index() == q.index(), 'permutation')

WORDS = {
    'S11': [[0], [{'0': 1}], [[0, None]], [[0, None], 1, [2, None]], [1, {'0': 2}, 0], [-1, [1, None]], [{'0': 1, '1': 2, '2': 0}, 1], [{'0': ~0, '1': ~1, '2': ~2}]],
    'S03': [[0], [[1, None]], [[0, None], [1, None]]],
    'S12a': [[5, 3], [[3, None], 5, 1]], 'S12e': [[[0, None], [3, None]], [0, 2, [2, None]]], 'S12d': [[5, [3, None]]],
    'S04b': [[[0, None], [1, None]], [{'multi': [0, ~3]}], [3, 1, [0, None]]], 'S04c': [[[1, None], 0], [0, 4]],
    'S05a': [[2, 7], [{'multi': [2, ~6]}]], 'S21a': [[0, 3]], 'S21b': [[4]], 'S13a': [[6, 2]], 'S13b': [[4, 6]],
    'S11+S11': [[0, 3], [3, {'0': 1, '3': 4}], [{'0': 3, '3': 0, '1': 4, '4': 1, '2': 5, '5': 2}]], 'S11+S03': [[0, 4]],
    }

def obligations(tier):
    out = []
    quick = tier == 'quick'
    limit = 100 if quick else 900
    def add(name, h, bound, **kw): out.append(Obligation(name, h, kw, timeout=limit, bound=bound))
    add('alphabet', 'alphabet', 'all digits')
    for d in (1, 2, 3, 5, 8, 13) if quick else (1, 2, 3, 5, 8, 13, 21, 34): add('base 64, %d digits' % d, 'base64', 'all n < 64^%d' % d, d=d)
    for n in range(1, 6 if quick else 7):
        add('from index %d' % n, 'from_index', 'all indices', n=n)
        add('index %d' % n, 'index', 'all permutations', n=n)
        if n > 1: add('ordered %d' % n, 'ordered', 'all indices', n=n)
    add('signatures', 'signature', 'all labellings', T='S11')
    for T in ('S12a', 'S04f') if quick else MEDIUM + LARGE + DISCONNECTED: add('relabelled signature %s' % T, 'relabelled', 'all transpositions and orientations', T=T)
    for T, words in WORDS.items():
        for w in words:
            add('package %s %s' % (T, w), 'package', 'all powers', T=T, word=w)
    for T in ('S11', 'S12b', 'S05a'):
        for cls in ('Lamination', 'IntegralLamination', 'MultiCurve', 'MultiArc', 'Curve', 'Arc', 'HomologyClass'): add('%s on %s' % (cls, T), 'vectors', 'all weights', T=T, cls=cls, kind=None)
    add('permutations', 'others', 'all of Sym(4)')
    return out
