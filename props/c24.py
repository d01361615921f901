''' C24: words describing mapping classes mean what they say. '''
from .common import *

PROPERTY = 'C24'
WITNESSES = 80
TECHNIQUE = 'symbolic execution of the real word parser, the straight-line programs that it builds and the action of the result: the powers in the word are symbolic integers (read from place holders by the shimmed int), z3 decides that every homology class (and, for a triangulation with a non-abelian group of isometries, every lamination) has the image under the composite written out by hand'
BOUNDS = 'homology classes and laminations: all (unbounded); powers: |k| up to the stated bound; the listed word shapes'

def group(name):
    ''' Two infinite order generators (with faithful action on homology), or isometries which generate a non-abelian group. '''
    def build():
        K = curver().kernel
        if name == 'S11':
            T = tri('S11')
            return K.MappingClassGroup({'a': T.edge_curve(0).encode_twist(), 'b_1': T.edge_curve(1).encode_twist(), 'ab': T.edge_curve(2).encode_twist()})
        if name == 'S11-':
            T = tri('S11')
            return K.MappingClassGroup({'a': T.edge_curve(0).encode_twist(), 'b_1': T.edge_curve(1).encode_twist(), 'c': T.edge_curve(2).encode_twist()})
        T = tri('S11+S11')
        r = T.encode([{0: 1, 1: 2, 2: 0, 3: 3, 4: 4, 5: 5}])
        s = T.encode([{0: 3, 3: 0, 1: 4, 4: 1, 2: 5, 5: 2}])
        h = T.encode([{0: ~0, 1: ~1, 2: ~2, 3: 3, 4: 4, 5: 5}])
        return K.MappingClassGroup({'r': r, 's': s, 'h_2': h})
    return once(('mcg', name), build)

def letters(name): return once(('letters', name), lambda: {x: group(name)[x] for x in group(name)})

def inverse_letter(x): return x.swapcase()

def expand(tree, powers):
    ''' The list of letters that a tree stands for. '''
    if isinstance(tree, str): return [tree]
    out = []
    if tree[0] == 'pow':
        inner, k = expand(tree[1], powers), powers(tree[2])
        if k < 0: return [inverse_letter(x) for x in reversed(inner)] * -k
        return inner * k
    for t in tree[1:]: out += expand(t, powers)
    return out

def write(tree, power, sep='.', top=True):
    if isinstance(tree, str): return tree
    if tree[0] == 'pow':
        inner = write(tree[1], power, sep, False) if isinstance(tree[1], str) else '(' + write(tree[1], power, sep) + ')'
        return inner + '^' + power(tree[2])
    return ('%s' if top else '(%s)') % sep.join(write(t, power, sep, False) for t in tree[1:])

TOKEN = '9990%d'

def word(ctx, name, tree, bound, sep='.', noise=''):
    G = group(name)
    ks = {}
    def power(i):
        if isinstance(i, int): return '%d' % i
        if i not in ks: ks[i] = ctx.int('k_' + i, -bound, bound)
        if E._cur is None: return '%d' % ks[i]
        token = TOKEN % list(ks).index(i)
        E.placeholders()[token] = ks[i]
        return token
    text = write(tree, power, sep)
    if noise: text = noise.join(text)
    h = G(text)
    value = lambda i: i if isinstance(i, int) else ctx.concretize(ks[i])
    expected = expand(tree, value)
    T = G.triangulation
    ctx.check(h.source_triangulation == T and h.target_triangulation == T and isinstance(h, curver().kernel.MappingClass), 'a mapping class')
    v = ctx.ints('v', T.zeta)
    a = b = curver().kernel.HomologyClass(T, list(v))
    for x in reversed(expected): b = letters(name)[x](b)
    ctx.check(hom_equal(T, h(a).algebraic, b.algebraic), 'homology')
    if name == 'isometries':
        w = ctx.ints('w', T.zeta)
        a = b = lam(T, w)
        for x in reversed(expected): b = letters(name)[x](b)
        ctx.check_eq(h(a).geometric, b.geometric, 'laminations')

def swapped(ctx, name):
    ''' A swapped case letter is the inverse, on every homology class. '''
    G = group(name)
    T = G.triangulation
    v = ctx.ints('v', T.zeta)
    a = curver().kernel.HomologyClass(T, list(v))
    x = ctx.choose('x', sorted(letters(name)))
    ctx.check(hom_equal(T, G(x)(G(inverse_letter(x))(a)).algebraic, v), 'inverse')

def refused(ctx, name, text):
    ''' Whatever the power. '''
    G = group(name)
    k = ctx.int('k', -3, 3)
    if E._cur is None: text = text.replace('#', str(k))
    else:
        E.placeholders()[TOKEN % 0] = k
        text = text.replace('#', TOKEN % 0)
    try: G(text)
    except ValueError:
        ctx.check(True, 'refused')
        return
    ctx.fail('no ValueError')

SHAPES = [
    ['cat', 'a', 'b_1'], ['cat', 'b_1', 'A', 'B_1'], ['cat', 'ab', 'AB', 'a', 'ab'],
    ['cat', ['pow', 'a', 'i'], 'b_1'], ['cat', 'a', ['pow', 'b_1', 'i'], ['pow', 'A', 'j']],
    ['pow', ['cat', 'a', 'b_1', 'AB'], 'i'], ['cat', 'b_1', ['pow', ['cat', 'a', 'B_1'], 'i'], 'a'],
    ['pow', ['cat', 'a', ['pow', 'b_1', 'i']], 'j'], ['cat', ['pow', ['cat', ['pow', ['cat', 'a', 'b_1'], 'i'], 'b_1'], 'j'], 'A'],
    ['pow', ['pow', ['cat', 'a', 'b_1'], 'i'], 'j'], ['cat', ['cat', 'a', 'b_1'], ['cat', 'ab'], ['pow', ['cat'], 'i']],
    ['cat', ['pow', ['cat', 'a', 'b_1'], 'i'], ['pow', ['cat', 'b_1', 'a'], 'j']], ['cat'], ['cat', ['cat', ['cat', 'a'], 'b_1']],
    ]
ISOM = [['cat', 'r', 's', 'h_2'], ['pow', ['cat', 'r', 's', 'H_2'], 'i'], ['cat', ['pow', ['cat', 'r', ['pow', 's', 'j'], 'h_2'], 'i'], 'r'], ['cat', ['pow', 'r', 'i'], 's', ['pow', 'R', 'j'], 'h_2']]
REFUSED = ['a^', 'a^b_1', '(a^#', 'a)', ')(', 'a)(b_1', 'a^#)(b_1', '((a)', 'xyz', 'ax', 'xa', 'ab.c', 'a^(#)', '^#', '(^#)', 'b_1.(^#)', '#a', '#', 'a^#.#', '(a.b_1)^', 'a^.', '(a))^#(']

def rename(t): return {'ab': 'c', 'AB': 'C'}.get(t, t) if isinstance(t, str) else [rename(x) for x in t]

def obligations(tier):
    out = []
    quick = tier == 'quick'
    for name, shapes, big in [('S11', SHAPES, 6 if quick else 12), ('isometries', ISOM, 5 if quick else 9)]:
        for t in shapes:
            nested = str(t).count("'i'") + str(t).count("'j'") > 1
            bound = (3 if quick else 5) if nested else big
            out.append(Obligation('%s %s' % (name, t), 'word', {'name': name, 'tree': t, 'bound': bound}, timeout=100 if quick else 900, bound='|powers| <= %d' % bound))
        out.append(Obligation('%s letters' % name, 'swapped', {'name': name}, timeout=60, bound='all homology classes'))
    for t in SHAPES[:2] + SHAPES[3:8]:
        out.append(Obligation('S11 %s without dots' % t, 'word', {'name': 'S11-', 'tree': rename(t), 'bound': 3, 'sep': ''}, timeout=100, bound='|powers| <= 3'))
        out.append(Obligation('S11 %s with spaces' % t, 'word', {'name': 'S11', 'tree': t, 'bound': 2, 'noise': ' '}, timeout=100, bound='|powers| <= 2'))
    for k in (100, -37) if quick else (100, -37, -600, 1023):
        out.append(Obligation('S11 power %d' % k, 'word', {'name': 'S11', 'tree': ['cat', ['pow', 'a', k], 'b_1'], 'bound': 1}, timeout=100 if quick else 900, bound='all homology classes', must=False))
    for text in REFUSED:
        out.append(Obligation('refused %s' % text, 'refused', {'name': 'S11', 'text': text}, timeout=60, bound='|k| <= 3'))
    return out
