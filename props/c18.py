''' C18: union-find keeps exactly the generated equivalence relation. '''
from .common import *

PROPERTY = 'C18'
TECHNIQUE = 'symbolic execution of the real UnionFind code on a history of unions of symbolic items (its two dictionaries become symbolic stores); the oracle is the equivalence closure computed alongside; z3 decides each path'
BOUNDS = 'all histories with the stated numbers of items and unions'

class Store:
    ''' A dictionary with fixed integer keys that can be read and written at symbolic keys. '''
    def __init__(self, pairs): self.d = {k: v for k, v in pairs}
    def __getitem__(self, key):
        if not E.is_sym(key): return self.d[key]
        keys = list(self.d)
        out = self.d[keys[-1]]
        for k in keys[:-1]: out = site(key == k, self.d[k], out)
        return out
    def __setitem__(self, key, value):
        if not E.is_sym(key):
            if key not in self.d: raise KeyError(key)
            self.d[key] = value
        else:
            for k in self.d: self.d[k] = site(key == k, value, self.d[k])
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
    def __contains__(self, key): return key in self.d
    def keys(self): return self.d.keys()
    def values(self): return self.d.values()
    def items(self): return self.d.items()

def dict_shim(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        pairs = list(args[0].items() if isinstance(args[0], dict) else args[0])
        if pairs and all(type(k) is int for k, _ in pairs): return Store(pairs)
        return dict(pairs)
    return dict(*args, **kwargs)

class store:
    def __enter__(self):
        if E._cur is None: return
        import curver.kernel.structures as m
        self.m = m
        self.had = m.__dict__.get('dict')
        m.dict = dict_shim
    def __exit__(self, *args):
        if E._cur is None: return
        if self.had is None: del self.m.__dict__['dict']
        else: self.m.dict = self.had

class Relation:
    ''' The oracle: a label for each item, merged on each union. '''
    def __init__(self, n): self.label = list(range(n))
    def at(self, x):
        out = self.label[-1]
        for i in range(len(self.label) - 1): out = site(x == i, self.label[i], out)
        return out
    def union(self, x, y):
        a, b = self.at(x), self.at(y)
        self.label = [site(l == b, a, l) for l in self.label]
    def same(self, x, y): return self.at(x) == self.at(y)

def fresh(ctx, i, arity, n, top):
    ''' The items of the next union. Items are only ever compared for equality, so without loss of generality they first appear in increasing order. '''
    xs = ctx.ints('u%d_' % i, arity, 0, n - 1)
    for x in xs:
        ctx.assume(x <= top)
        if top < n - 1 if not E.is_sym(top) else True: top = smin(smax(top, x + 1), n - 1)
    return xs, top

def history(ctx, n, m, arity=2, finds=()):
    with store(): return history_(ctx, n, m, arity, finds)

def history_(ctx, n, m, arity, finds):
    uf, rel = curver().kernel.UnionFind(list(range(n))), Relation(n)
    top = 0
    for i in range(m):
        xs, top = fresh(ctx, i, arity, n, top)
        if arity == 2 and i % 2 == 0: uf.union2(*xs)
        else: uf.union(*xs)
        for y in xs[1:]: rel.union(xs[0], y)
        if i in finds: uf(ctx.int('f%d' % i, 0, n - 1))
    x, y = ctx.int('x', 0, n - 1), ctx.int('y', 0, n - 1)
    ctx.check(siff(uf(x) == uf(y), rel.same(x, y)), 'same root exactly when related')
    r = uf(x)
    ctx.check(rel.same(r, x), 'the root is related to the item')
    ctx.check(uf(r) == r, 'the root is its own root')

def groups(ctx, n, m, arity=2):
    with store(): return groups_(ctx, n, m, arity)

def groups_(ctx, n, m, arity):
    uf, rel = curver().kernel.UnionFind(list(range(n))), Relation(n)
    top = 0
    for i in range(m):
        xs, top = fresh(ctx, i, arity, n, top)
        uf.union(*xs)
        for y in xs[1:]: rel.union(xs[0], y)
    size = len(uf)
    gs = [list(g) for g in uf]
    ctx.check(sorted(x for g in gs for x in g) == list(range(n)), 'each item is in one group')
    where = {x: i for i, g in enumerate(gs) for x in g}
    ctx.check(sand(*[siff(where[a] == where[b], rel.same(a, b)) for a in range(n) for b in range(a)]), 'the groups are the classes')
    ctx.check(size == len(gs), 'length')

def obligations(tier):
    out = []
    quick = tier == 'quick'
    limit = 100 if quick else 1500
    def add(h, must=True, **kw): out.append(Obligation('%s %s' % (h, ' '.join('%s=%s' % x for x in kw.items())), h, kw, timeout=limit, bound='all histories', must=must))
    for n, m in [(2, 2), (3, 3), (4, 3), (5, 2), (6, 2)] + ([(4, 4), (5, 4), (6, 3), (8, 3), (5, 5)] if not quick else [(6, 3)]): add('history', n=n, m=m, must=m < 4)
    add('history', n=4, m=3, finds=[1]); quick or add('history', n=4, m=3, finds=[0, 1])
    for n, m in [(4, 1), (3, 2)] + ([] if quick else [(5, 2)]): add('history', n=n, m=m, arity=3)
    for n, m in [(3, 2), (4, 2), (3, 3)] + ([] if quick else [(4, 3), (5, 3)]): add('groups', n=n, m=m)
    add('groups', n=4, m=1, arity=3)
    return out
