r''' A small symbolic executor for (pure) Python code working on integers.

The *real* functions of the code under test are called with SymInt objects in place of integers.
Arithmetic on these builds linear terms, comparisons build SymBools and, when Python asks for the
truth of a SymBool, the executor asks the SMT solver which sides are feasible and explores *every*
feasible side (depth first, by re-execution).  A harness finishes a path by calling ctx.check(cond):
the solver then decides whether path condition /\ not(cond) is satisfiable.

Nothing here knows anything about curver. '''

import fractions
import math
import numbers
import time
import traceback

import z3

class PathAbort(BaseException):
    ''' This path is infeasible / deliberately cut (assume failed). '''
class Inconclusive(BaseException):
    ''' The solver answered unknown, or a budget ran out, or an operation cannot be encoded. '''
class CounterExample(BaseException):
    def __init__(self, label, assignment, info=None):
        super().__init__(label)
        self.label, self.assignment, self.info = label, assignment, info

_cur = None  # The active context.

def cur():
    if _cur is None: raise Inconclusive('symbolic value used outside of an exploration')
    return _cur

# --------------------------------------------------------------------------------------------
# Terms

# Terms are built for the solver in two sorts: 'R' (the rational relaxation, solved incrementally) and 'I' (the real thing).
_zvars = {}
def zvar(name, sort):
    v = _zvars.get((name, sort))
    if v is None:
        v = _zvars[name, sort] = z3.Int(name) if sort == 'I' else z3.Real(name)
    return v

def _gcd(values):
    from math import gcd
    g = 0
    for v in values:
        g = gcd(g, v)
        if g == 1: return 1
    return g

class SymInt:
    ''' A linear term sum(coef * var) + const over integer solver variables. '''
    __slots__ = ('lin', 'const')
    # numpy: treat as an opaque object.
    def __init__(self, lin, const):
        self.lin = lin  # dict: variable name -> non-zero int.
        self.const = const

    # --- construction helpers
    @staticmethod
    def make(lin, const):
        return SymInt(lin, const) if lin else const

    def z(self, sort):
        return _linz(self.lin, sort) + self.const if self.const else _linz(self.lin, sort)

    # --- arithmetic
    def _addmul(self, other, k):
        if isinstance(other, SymInt):
            lin = dict(self.lin)
            for v, c in other.lin.items():
                n = lin.get(v, 0) + k * c
                if n: lin[v] = n
                else: lin.pop(v, None)
            return SymInt.make(lin, self.const + k * other.const)
        return SymInt(self.lin, self.const + k * other)
    def __add__(self, other):
        if isinstance(other, bool): other = int(other)
        if isinstance(other, SymQuot): other = other.value()
        if isinstance(other, (SymInt, int)): return self._addmul(other, 1)
        other = _npint(other)
        if other is None: return NotImplemented
        if isinstance(other, int): return self._addmul(other, 1)
        return SymFrac(self, 1) + other
    __radd__ = __add__
    def __neg__(self): return SymInt({v: -c for v, c in self.lin.items()}, -self.const)
    def __pos__(self): return self
    def __sub__(self, other):
        if isinstance(other, SymQuot): other = other.value()
        if isinstance(other, (SymInt, int)): return self._addmul(other, -1)
        other = _npint(other)
        if other is None: return NotImplemented
        if isinstance(other, int): return self._addmul(other, -1)
        return SymFrac(self, 1) - other
    def __rsub__(self, other): return (-self) + other
    def __mul__(self, other):
        if isinstance(other, SymQuot): other = other.value()
        if isinstance(other, SymInt): return cur().product(self, other)
        other = _npint(other)
        if other is None: return NotImplemented
        if isinstance(other, int):
            if other == 0: return 0
            return SymInt({v: c * other for v, c in self.lin.items()}, self.const * other)
        return SymFrac(self, 1) * other
    __rmul__ = __mul__
    def __pow__(self, n):
        if not isinstance(n, int) or n < 0: raise Inconclusive('symbolic power')
        r = 1
        for _ in range(n): r = self * r
        return r
    def __floordiv__(self, other): return sdivmod(self, other)[0]
    def __mod__(self, other): return sdivmod(self, other)[1]
    def __divmod__(self, other): return sdivmod(self, other)
    def __rfloordiv__(self, other): return sdivmod(other, self)[0]
    def __rmod__(self, other):
        if isinstance(other, str): return NotImplemented
        return sdivmod(other, self)[1]
    def __rdivmod__(self, other): return sdivmod(other, self)
    def __truediv__(self, other):
        if type(other) is int and other:  # Python gives a float: exact only while small.
            if sand(self <= 2**52, self >= -2**52): return SymFrac(self, 1) / other
            # Try values that are not exact first: far off (rounded either way), just off, and then any.
            for condition in (lambda: sand(self >= 2**63, self % 4096 == 1000), lambda: sand(self >= 2**63, self % 4096 == 3000), lambda: sand(self <= -2**63, self % 4096 == 1000),
                    lambda: sand(sor(self >= 2**54, self <= -2**54), self % 8 == 6), lambda: True):
                if condition():
                    v = cur().pick(self)
                    if self == v: return v / other
                    break
            cur().incomplete = 'float division of a large integer'
            raise PathAbort()
        if isinstance(other, SymInt):
            if sand(self <= 2**52, self >= -2**52, other <= 2**52, other >= -2**52): return SymFrac(self, 1) / other
            v = cur().pick(other)
            if other == v: return self / v
            cur().incomplete = 'float division of large integers'
            raise PathAbort()
        return SymFrac(self, 1) / other
    def __rtruediv__(self, other): return SymFrac(other, 1) / self
    def __abs__(self): return smax(self, -self)
    def __invert__(self): return -self - 1
    def __lshift__(self, n): return self * (1 << n)
    def __rshift__(self, n): return self // (1 << n)
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=0): return self
    def __and__(self, n):
        if isinstance(n, int) and n >= 0 and (n & (n + 1)) == 0: return self % (n + 1)
        raise Inconclusive('symbolic &')
    __rand__ = __and__

    # --- comparisons
    def _cmp(self, other, op):
        if isinstance(other, bool): other = int(other)
        if isinstance(other, SymQuot): other = other.value()
        if isinstance(other, (SymInt, int)): d = self - other
        elif isinstance(other, (SymFrac, fractions.Fraction)):
            return getattr(SymFrac(self, 1), '__%s__' % op)(other)
        elif isinstance(other, float):
            if other != int(other): return getattr(SymFrac(self, 1), '__%s__' % op)(fractions.Fraction(other))
            d = self - int(other)
        else:
            other = _npint(other)
            if not isinstance(other, int): return NotImplemented
            d = self - other
        return compare(d, op)
    def __lt__(self, other): return self._cmp(other, 'lt')
    def __le__(self, other): return self._cmp(other, 'le')
    def __gt__(self, other): return self._cmp(other, 'gt')
    def __ge__(self, other): return self._cmp(other, 'ge')
    def __eq__(self, other): return self._cmp(other, 'eq')
    def __ne__(self, other): return self._cmp(other, 'ne')
    def __bool__(self): return bool(compare(self, 'ne'))

    # --- conversions
    def __index__(self): return cur().concretize(self)
    def __int__(self): return cur().concretize(self)
    def __hash__(self):
        if hash_log is not None:
            hash_log.append(self)
            return 0
        return hash(cur().concretize(self))
    def __float__(self): raise Inconclusive('float of a symbolic integer')
    def bit_length(self): return cur().concretize(self).bit_length()
    def __repr__(self): return '<sym %s>' % (self.z('I'),)
    def __str__(self): return '<sym>'
    def __format__(self, spec): return '<sym>'
    def __reduce__(self):
        _pickled.append(self)
        return _unpickle, (len(_pickled) - 1, )
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)
    def conjugate(self): return self
    def is_integer(self): return True

_pickled = []  # Symbolic integers that were pickled by this process.
def _unpickle(index): return _pickled[index]

numbers.Integral.register(SymInt)

def _npint(x):
    ''' Normalise concrete numbers (numpy integers, Fractions, floats) or return None. '''
    if isinstance(x, (int, SymInt)): return x
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, fractions.Fraction): return int(x) if x.denominator == 1 else x
    if isinstance(x, float): return _npint(fractions.Fraction(x))
    if isinstance(x, SymFrac): return x
    return None

def toz(x, sort):
    if isinstance(x, SymInt): return x.z(sort)
    return z3.IntVal(int(x)) if sort == 'I' else z3.RealVal(int(x))

class SymBool:
    ''' A boolean combination of linear atoms (in negation normal form):
      ('le', lin, c): sum(lin) <= c     ('eq', lin, c): sum(lin) == c     ('ne', lin, c): sum(lin) != c
      ('and', bs)    ('or', bs) '''
    __slots__ = ('t', '_z')
    def __init__(self, t):
        self.t = t
        self._z = {}
    def z(self, sort):
        r = self._z.get(sort)
        if r is None:
            k = self.t[0]
            if k in ('le', 'eq', 'ne'): r = _atomz(*self.t, sort)
            elif k == 'and': r = z3.And(*[x.z(sort) for x in self.t[1]])
            else: r = z3.Or(*[x.z(sort) for x in self.t[1]])
            self._z[sort] = r
        return r
    def ev(self, m):
        k = self.t[0]
        if k == 'le': return _linev(self.t[1], m) <= self.t[2]
        if k == 'eq': return _linev(self.t[1], m) == self.t[2]
        if k == 'ne': return _linev(self.t[1], m) != self.t[2]
        if k == 'and': return all(x.ev(m) for x in self.t[1])
        return any(x.ev(m) for x in self.t[1])
    def __bool__(self): return cur().branch(self)
    def __and__(self, other): return sand(self, other)
    __rand__ = __and__
    def __or__(self, other): return sor(self, other)
    __ror__ = __or__
    def __invert__(self): return snot(self)
    def __eq__(self, other):
        if isinstance(other, (bool, SymBool)): return siff(self, other)
        return int(bool(self)) == other
    def __ne__(self, other): return snot(self == other)
    def __hash__(self): return hash(bool(self))
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __add__(self, other): return int(bool(self)) + other
    __radd__ = __add__
    def __mul__(self, other): return int(bool(self)) * other
    __rmul__ = __mul__
    def __repr__(self): return '<symbool %s>' % (self.z('I'), )

_lin_cache, _atom_cache, _mono_cache = {}, {}, {}
def _mono(v, c, sort):
    r = _mono_cache.get((v, c, sort))
    if r is None: r = _mono_cache[v, c, sort] = zvar(v, sort) if c == 1 else c * zvar(v, sort)
    return r
def lin_key(lin): return tuple(sorted(lin.items()))
def _linz(lin, sort):
    key = (lin_key(lin), sort)
    r = _lin_cache.get(key)
    if r is None:
        terms = [_mono(v, c, sort) for v, c in key[0]]
        r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        if len(_lin_cache) > 200000: _lin_cache.clear()
        _lin_cache[key] = r
    return r
def _atomz(kind, lin, c, sort):
    key = (kind, lin_key(lin), c, sort)
    r = _atom_cache.get(key)
    if r is None:
        x = _linz(lin, sort)
        if kind == 'le': r = x <= c
        elif kind == 'eq': r = x == c
        else: r = z3.Or(x <= c - 1, x >= c + 1)
        if len(_atom_cache) > 200000: _atom_cache.clear()
        _atom_cache[key] = r
    return r
def _linev(lin, m): return sum(c * m[v] for v, c in lin.items())
def evaluate(x, m):
    if isinstance(x, SymInt): return _linev(x.lin, m) + x.const
    if isinstance(x, SymBool): return x.ev(m)
    return x

def boolz(b, sort):
    if isinstance(b, SymBool): return b.z(sort)
    return z3.BoolVal(bool(b))

def compare(d, op):
    ''' d op 0 where d is a SymInt or int. '''
    if not isinstance(d, SymInt):
        return {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'eq': d == 0, 'ne': d != 0}[op]
    if op in ('gt', 'ge'):
        return compare(-d, {'gt': 'lt', 'ge': 'le'}[op])
    if op == 'lt':  # d < 0 iff d + 1 <= 0
        return compare(d + 1, 'le')
    g = _gcd(d.lin.values())
    c = d.const
    lin = d.lin if g == 1 else {v: k // g for v, k in d.lin.items()}
    if op in ('eq', 'ne'):
        if c % g: return op == 'ne'
        return SymBool((op, lin, -c // g))
    return SymBool(('le', lin, (-c) // g))  # sum <= -c, rounded down.

def _boolify(xs):
    for x in xs:
        yield x if isinstance(x, SymBool) else bool(x)
def sand(*xs):
    out = []
    for x in _boolify(xs):
        if x is False: return False
        if x is not True: out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else SymBool(('and', out))
def sor(*xs):
    out = []
    for x in _boolify(xs):
        if x is True: return True
        if x is not False: out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else SymBool(('or', out))
def snot(x):
    if not isinstance(x, SymBool): return not x
    k = x.t[0]
    if k == 'le': return SymBool(('le', {v: -c for v, c in x.t[1].items()}, -x.t[2] - 1))
    if k == 'eq': return SymBool(('ne', x.t[1], x.t[2]))
    if k == 'ne': return SymBool(('eq', x.t[1], x.t[2]))
    if k == 'and': return sor(*[snot(y) for y in x.t[1]])
    return sand(*[snot(y) for y in x.t[1]])
def simplies(a, b): return sor(snot(a), b)
def siff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool): return bool(a) == bool(b)
    if not isinstance(a, SymBool): return b if a else snot(b)
    if not isinstance(b, SymBool): return a if b else snot(a)
    return sor(sand(a, b), sand(snot(a), snot(b)))
def seq(xs, ys):
    ''' The condition that two sequences of numbers agree, without forking. '''
    if not (hasattr(xs, '__iter__') or hasattr(ys, '__iter__')): xs, ys = [xs], [ys]
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys): return False
    return sand(*[x == y for x, y in zip(xs, ys)])

def smax(*xs): return _extreme(xs, 'max')
def smin(*xs): return _extreme(xs, 'min')
def _extreme(xs, kind):
    best = xs[0]
    for x in xs[1:]:
        best = _extreme2(best, x, kind)
    return best
def _extreme2(a, b, kind):
    if isinstance(a, (SymQuot, SymFrac)) or isinstance(b, (SymQuot, SymFrac)):
        if kind == 'max': return b if b > a else a
        return b if b < a else a
    if not isinstance(a, SymInt) and not isinstance(b, SymInt):
        if kind == 'max': return b if b > a else a
        return b if b < a else a
    c = compare(a - b, 'ge') if kind == 'max' else compare(a - b, 'le')
    return site(c, a, b)

def site(c, a, b):
    ''' If c then a else b, merged (no fork). '''
    if not isinstance(c, SymBool): return a if c else b
    if not isinstance(a, SymInt) and not isinstance(b, SymInt) and a == b: return a
    d = a - b
    if not isinstance(d, SymInt) and d == 0: return a
    return cur().ite(c, a, b)

def sabs(x): return abs(x)

def sdivmod(a, b):
    if isinstance(a, SymQuot): a = a.value()
    if isinstance(b, SymQuot): b = b.value()
    b = _npint(b); a = _npint(a)
    if isinstance(a, (fractions.Fraction, SymFrac)) or isinstance(b, (fractions.Fraction, SymFrac)): raise Inconclusive('divmod of fractions')
    if isinstance(b, SymInt):
        b2 = cur().unique_value(b)
        if b2 is None:
            q = SymQuot(a, b)
            return q, _LazyRem(a, b, q)
        b = b2
    if b == 0: raise ZeroDivisionError('integer division or modulo by zero')
    if not isinstance(a, SymInt): return divmod(a, b)
    if b < 0:
        q, r = sdivmod(-a, -b)
        return q, -r
    if b == 1: return a, 0
    # Divide out the exactly divisible part.
    lin_q = {v: c // b for v, c in a.lin.items() if c % b == 0}
    lin_r = {v: c % b for v, c in a.lin.items() if c % b}
    cq, cr = divmod(a.const, b)
    exact = {v: a.lin[v] // b for v in a.lin if a.lin[v] // b}
    if not lin_r:
        return SymInt.make(lin_q, cq), cr
    # a = b * (exact + cq) + rest where rest = sum(lin_r) + cr.
    rest = SymInt(lin_r, cr)
    q, r = cur().divconst(rest, b)
    return SymInt.make(exact, cq) + q, r

class _LazyRem:
    def __init__(self, a, b, q): self.a, self.b, self.q = a, b, q
    def value(self): return self.a - self.q.value() * self.b
    def __getattr__(self, name): return getattr(self.value(), name)
    def __eq__(self, other): return self.value() == other
    def __ne__(self, other): return self.value() != other
    def __bool__(self): return bool(self.value() != 0)

class SymQuot:
    ''' a // b for symbolic b: comparisons with constants stay linear, anything else concretizes (exhaustively). '''
    def __init__(self, n, d):
        if bool(d == 0): raise ZeroDivisionError('integer division or modulo by zero')
        if bool(d < 0): n, d = -n, -d
        self.n, self.d = n, d
        self._value = None
    def value(self):
        if self._value is None: self._value = cur().concretize_quotient(self.n, self.d)
        return self._value
    def _const(self, other):
        return isinstance(other, int) and self._value is None
    def __lt__(self, other): return self.n < other * self.d if self._const(other) else self.value() < other
    def __ge__(self, other): return self.n >= other * self.d if self._const(other) else self.value() >= other
    def __le__(self, other): return self.n < (other + 1) * self.d if self._const(other) else self.value() <= other
    def __gt__(self, other): return self.n >= (other + 1) * self.d if self._const(other) else self.value() > other
    def __eq__(self, other):
        if self._const(other): return sand(self.n >= other * self.d, self.n < (other + 1) * self.d)
        return self.value() == other
    def __ne__(self, other): return snot(self == other)
    def __bool__(self): return bool(self != 0)
    def __hash__(self): return hash(self.value())
    def __index__(self): return self.value()
    def __int__(self): return self.value()
    def __neg__(self): return -self.value()
    def __abs__(self): return abs(self.value())
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)
    def __str__(self): return '<symquot>'
for _n in ['add', 'sub', 'mul', 'floordiv', 'mod', 'radd', 'rsub', 'rmul', 'rfloordiv', 'rmod']:
    def _f(self, other, _n='__%s__' % _n):
        v = self.value()
        if isinstance(other, SymQuot): other = other.value()
        if isinstance(other, SymInt) and isinstance(v, int):
            import operator
            base = _n.strip('_')
            if base.startswith('r'): return getattr(operator, base[1:])(other, v)
            return getattr(operator, base)(v, other)
        return getattr(v, _n)(other)
    setattr(SymQuot, '__%s__' % _n, _f)
numbers.Integral.register(SymQuot)

class SymFrac:
    ''' A rational num / den (den > 0), *not* reduced.  Stands in for fractions.Fraction. '''
    def __init__(self, num, den=1):
        if isinstance(num, SymFrac): num, den = num.num, num.den * den
        if isinstance(num, fractions.Fraction): num, den = num.numerator, num.denominator * den
        if isinstance(den, (SymFrac, fractions.Fraction)):
            num, den = num * den.denominator, den.numerator
        if isinstance(den, SymInt):
            if bool(den == 0): raise ZeroDivisionError('Fraction(%s, 0)' % (num, ))
            if bool(den < 0): num, den = -num, -den
        else:
            if den == 0: raise ZeroDivisionError('Fraction(%s, 0)' % (num, ))
            if den < 0: num, den = -num, -den
        self.num, self.den = num, den
    numerator = property(lambda self: self.num)
    denominator = property(lambda self: self.den)
    @staticmethod
    def _co(x):
        if isinstance(x, SymFrac): return x
        x = _npint(x)
        if x is None: return None
        return SymFrac(x, 1)
    def __add__(self, other):
        o = self._co(other)
        if o is None: return NotImplemented
        if _same(self.den, o.den): return SymFrac(self.num + o.num, self.den)
        return SymFrac(self.num * o.den + o.num * self.den, self.den * o.den)
    __radd__ = __add__
    def __neg__(self): return SymFrac(-self.num, self.den)
    def __sub__(self, other):
        o = self._co(other)
        return NotImplemented if o is None else self + (-o)
    def __rsub__(self, other): return (-self) + other
    def __mul__(self, other):
        o = self._co(other)
        return NotImplemented if o is None else SymFrac(self.num * o.num, self.den * o.den)
    __rmul__ = __mul__
    def __truediv__(self, other):
        o = self._co(other)
        return NotImplemented if o is None else SymFrac(self.num * o.den, self.den * o.num)
    def __rtruediv__(self, other): return self._co(other) / self
    def __abs__(self): return SymFrac(abs(self.num), self.den)
    def _cmp(self, other, op):
        o = self._co(other)
        if o is None: return NotImplemented
        d = self.num - o.num if _same(self.den, o.den) else self.num * o.den - o.num * self.den
        return compare(d, op)
    def __lt__(self, other): return self._cmp(other, 'lt')
    def __le__(self, other): return self._cmp(other, 'le')
    def __gt__(self, other): return self._cmp(other, 'gt')
    def __ge__(self, other): return self._cmp(other, 'ge')
    def __eq__(self, other): return self._cmp(other, 'eq')
    def __ne__(self, other): return self._cmp(other, 'ne')
    def __bool__(self): return bool(self.num != 0)
    def __floordiv__(self, other):
        o = self._co(other)
        return (self.num * o.den) // (self.den * o.num)
    def __floor__(self): return self.num // self.den
    def __trunc__(self):
        if bool(self.num >= 0): return self.num // self.den
        return -((-self.num) // self.den)
    def __hash__(self): raise Inconclusive('hash of a symbolic fraction')
    def __str__(self): return '<symfrac>'
numbers.Rational.register(SymFrac)

def _same(a, b):
    d = a - b
    return not isinstance(d, SymInt) and d == 0

hash_log = None
def hashed(x):
    ''' The numbers that hash(x) depends on (on ordinary integers: the hash itself). '''
    global hash_log
    if _cur is None: return [hash(x)]
    saved, hash_log = hash_log, []
    try: return [hash(x)] + hash_log
    finally: hash_log = saved

def is_sym(x): return isinstance(x, (SymInt, SymBool, SymQuot, SymFrac))

# --------------------------------------------------------------------------------------------
# Exploration

class Stats:
    FIELDS = ['paths', 'cut', 'queries', 'checks', 'forks', 'merges', 'witnesses', 'integer_queries']
    def __init__(self):
        for f in self.FIELDS: setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}
    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        d['labels'] = dict(self.labels)
        return d

def _ckey(x):
    if isinstance(x, SymInt): return (lin_key(x.lin), x.const)
    if isinstance(x, SymBool):
        t = x.t
        if t[0] in ('le', 'eq', 'ne'): return (t[0], lin_key(t[1]), t[2])
        return (t[0], tuple(_ckey(y) for y in t[1]))
    return x

class _Entry:
    ''' One recorded decision of a path: a branch (cond given on the solver stack) or any other recorded choice. '''
    __slots__ = ('kind', 'value')
    def __init__(self, kind, value): self.kind, self.value = kind, value

_epoch_counter = [0]
def _next_epoch():
    _epoch_counter[0] += 1
    return _epoch_counter[0]

class Ctx:
    ''' The symbolic context handed to a harness. '''
    symbolic = True
    def __init__(self, deadline=None, max_paths=None, query_timeout_ms=60000):
        self.solver = z3.Solver()
        self.solver.set('timeout', 2000)
        self.query_timeout_ms = query_timeout_ms
        self.deadline, self.max_paths = deadline, max_paths
        self.stats = Stats()
        self.inputs = []  # Names of the input variables (in order of creation).
        self.prefix = []  # The entries of the path being (re-)executed.
        self.pos = 0
        self.keep = 0  # How many entries are already on the solver stack.
        self.depth = 0  # Number of entries on the solver stack.
        self.stack = []
        self.pending = []
        self.fresh = 0
        self.model = {}
        self.defs = []  # (name, kind, data) of each fresh variable, in order.
        self.path_cond = []
        self.facts, self.ites = {}, {}
        self.base_cond, self.input_set, self.nonlinear = [], set(), False
        self.epoch = 0
        self.nested = 0
        self.samples = []  # Witnesses of some of the paths.

    # --- solver access
    def _check(self, cond=None):
        ''' Return a model (a dictionary of integers) of the path together with cond, or None if there is none. '''
        if self.deadline is not None and time.time() > self.deadline: raise Inconclusive('time budget exhausted')
        t = time.time()
        try: return self._check2(cond)
        finally: self.stats.solver_s += time.time() - t

    def _check2(self, cond):
        self.stats.queries += 1
        # First the rational relaxation: unsat there is unsat over the integers.
        r = self.solver.check(cond.z('R')) if cond is not None else self.solver.check()
        if r == z3.unsat: return None
        if r == z3.sat:
            m = self._round(self.solver.model(), cond)
            if m is not None: return m
        # Otherwise solve over the integers, from scratch.
        self.stats.integer_queries += 1
        reason = ''
        for maker in (z3.Solver, lambda: z3.SolverFor('QF_LIA') if not self.nonlinear else z3.SolverFor('QF_NIA')):
            solver = maker()
            solver.set('timeout', self.query_timeout_ms)
            for d in self.defs: solver.add(self._defz(d, 'I'))
            for c in self.base_cond: solver.add(c.z('I'))
            for c in self.path_cond: solver.add(c.z('I'))
            if cond is not None: solver.add(cond.z('I'))
            r = solver.check()
            if r == z3.unsat: return None
            if r == z3.sat:
                model = solver.model()
                m = {d.name(): model[d].as_long() for d in model.decls()}
                return self._complete({name: m.get(name, 0) for name in self.inputs}, cond, must=True)
            reason = solver.reason_unknown()
        raise Inconclusive('solver: unknown (%s)' % reason)

    def _round(self, model, cond):
        ''' Try to turn a rational model into an integral one: most constraints are homogeneous so a multiple often works. '''
        values, lcm = {}, 1
        for d in model.decls():
            v = model[d]
            if not z3.is_rational_value(v): return None
            values[d.name()] = v = v.as_fraction()
            if d.name() in self.input_set: lcm = lcm * v.denominator // math.gcd(lcm, v.denominator)
        for k in ((1, 2) if lcm == 1 else (lcm, 2 * lcm)):
            m = self._complete({name: int(values.get(name, 0) * k) for name in self.inputs}, cond)
            if m is not None: return m
        return None

    def _complete(self, m, cond, must=False):
        for name, kind, data in self.defs: m[name] = self._defvalue(kind, data, m)
        if all(c.ev(m) for c in self.path_cond) and all(c.ev(m) for c in self.base_cond) and (cond is None or cond.ev(m)): return m
        if must: raise Inconclusive('the model returned by the solver does not satisfy the query')
        return None

    @staticmethod
    def _defvalue(kind, data, m):
        if kind == 'ite':
            c, a, b = data
            return evaluate(a if evaluate(c, m) else b, m)
        if kind == 'div': return evaluate(data[0], m) // data[1]
        if kind == 'mul': return evaluate(data[0], m) * evaluate(data[1], m)
        if kind == 'cases':
            for c, v in data:
                if evaluate(c, m): return evaluate(v, m)
            return 0
        raise AssertionError(kind)

    def _define(self, kind, data):
        self.fresh += 1
        name = '%s!%d' % (kind, self.fresh)
        self._install(name, kind, data)
        return SymInt({name: 1}, 0)
    def _install(self, name, kind, data):
        d = (name, kind, data)
        self.defs.append(d)
        if self.pos >= self.keep:
            z = self._defz(d, 'R')
            if z is not None: self.solver.add(z)
        self.model[name] = self._defvalue(kind, data, self.model) if not self._replaying() else self.model.get(name, 0)
    def _defz(self, d, sort):
        name, kind, data = d
        v = zvar(name, sort)
        if kind == 'ite':
            c, a, b = data
            return z3.Or(z3.And(c.z(sort), v == toz(a, sort)), z3.And(snot(c).z(sort), v == toz(b, sort)))
        if kind == 'div':
            r = toz(data[0], sort) - data[1] * v
            return z3.And(r >= 0, r <= data[1] - 1)
        if kind == 'mul':
            self.nonlinear = True
            return v == toz(data[0], sort) * toz(data[1], sort) if sort == 'I' else None
        return z3.And(*[z3.Or(boolz(snot(c), sort), v == toz(x, sort)) for c, x in self._exclusive(data)])
    @staticmethod
    def _exclusive(cases):
        before = []
        for c, x in cases:
            yield sand(c, *[snot(b) for b in before]), x
            before.append(c)
    def _replaying(self): return self.pos < len(self.prefix)

    # --- inputs / assumptions
    def int(self, name, lo=None, hi=None):
        if self.nested: raise Inconclusive('input created inside a summary')
        if name not in self.input_set: self.inputs.append(name); self.input_set.add(name)
        v = SymInt({name: 1}, 0)
        if name not in self.model: self.model[name] = 0 if (lo is None or lo <= 0) and (hi is None or hi >= 0) else (lo if lo is not None else hi)
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v <= hi)
        return v
    def ints(self, name, n, lo=None, hi=None): return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]
    def bool(self, name):
        return self.int(name, 0, 1) == 1
    def choose(self, name, items):
        ''' A symbolic choice from a (concrete) list: forks. '''
        items = list(items)
        return items[self.concretize(self.int(name, 0, len(items)-1))]
    def assume(self, cond):
        if not isinstance(cond, SymBool):
            if not cond: raise PathAbort()
            return
        if self.pos >= self.keep: self.solver.add(cond.z('R'))
        self.path_cond.append(cond)
        self._learn(cond)
        if not self._replaying() and not cond.ev(self.model):
            m = self._check()
            if m is None: raise PathAbort()
            self.model = m

    # --- facts known syntactically: bounds on linear forms
    @staticmethod
    def _form(lin):
        key = lin_key(lin)
        if key[0][1] < 0: return tuple((v, -c) for v, c in key), -1
        return key, +1
    def _learn(self, cond):
        k = cond.t[0]
        if k == 'and':
            for x in cond.t[1]: self._learn(x)
        elif k in ('le', 'eq'):
            key, sign = self._form(cond.t[1])
            lo, hi = self.facts.get(key, (None, None))
            c = cond.t[2] * sign
            if (k == 'eq' or sign > 0) and (hi is None or c < hi): hi = c
            if (k == 'eq' or sign < 0) and (lo is None or c > lo): lo = c
            self.facts[key] = (lo, hi)
    def _known(self, cond):
        ''' True / False if the truth of cond is clear from the facts, otherwise None. '''
        k = cond.t[0]
        if k in ('and', 'or'):
            rs = [self._known(x) for x in cond.t[1]]
            bad = k == 'or'
            if any(r is bad for r in rs): return bad
            return (not bad) if all(r is (not bad) for r in rs) else None
        key, sign = self._form(cond.t[1])
        c = cond.t[2] * sign
        lo, hi = self._interval(key)
        if lo is None and hi is None: return None
        if k in ('eq', 'ne'):
            if (lo is not None and c < lo) or (hi is not None and c > hi): return k == 'ne'
            return k == 'eq' if lo == hi == c else None
        if sign > 0:  # form <= c
            if hi is not None and hi <= c: return True
            if lo is not None and lo > c: return False
        else:  # form >= c
            if lo is not None and lo >= c: return True
            if hi is not None and hi < c: return False
        return None
    def _interval(self, key):
        ''' Bounds on a form that follow from what is known of it and of each of its variables. '''
        lo, hi = self.facts.get(key, (None, None))
        if len(key) == 1: return lo, hi
        a = b = 0
        for v, c in key:
            l, h = self.facts.get(((v, 1), ), (None, None))
            if c < 0: l, h = h, l
            a = None if a is None or l is None else a + c * l
            b = None if b is None or h is None else b + c * h
            if a is None and b is None: break
        if a is not None and (lo is None or a > lo): lo = a
        if b is not None and (hi is None or b < hi): hi = b
        return lo, hi

    # --- definitions (total, functional: they never constrain the inputs)
    def ite(self, c, a, b):
        known = self._known(c)
        if known is not None: return a if known else b
        key = (_ckey(c), _ckey(a), _ckey(b))
        r = self.ites.get(key)
        if r is None:
            self.stats.merges += 1
            r = self.ites[key] = self._define('ite', (c, a, b))
        return r
    def product(self, a, b):
        for x, y in [(a, b), (b, a)]:
            u = self.unique_value(x)
            if u is not None: return y * u
        return self._define('mul', (a, b))
    def divconst(self, a, b):
        key = (_ckey(a), b)
        q = self.ites.get(key)
        if q is None: q = self.ites[key] = self._define('div', (a, b))
        return q, a - q * b
    def _record(self, kind, compute):
        ''' Make a (deterministically replayed) choice that adds nothing to the path. '''
        if self.pos < len(self.prefix):
            e = self.prefix[self.pos]
            if e.kind != kind: raise Inconclusive('nondeterministic execution (%s, expected %s)' % (kind, e.kind))
        else:
            e = _Entry(kind, compute())
            self.prefix = self.prefix + [e]
        self._advance(e, None)
        return e.value
    def unique_value(self, x):
        ''' The only value that x can take here, or None. '''
        if not isinstance(x, SymInt): return x
        def compute():
            v = evaluate(x, self.model)
            return v if self._check(x != v) is None else None
        return self._record('unique', compute)

    # --- branching
    def _advance(self, entry, cond):
        if self.pos < self.keep: self.pos += 1; return
        self.solver.push()
        self.stack.append(entry)
        if cond is not None: self.solver.add(cond.z('R'))
        self.pos += 1
    def branch(self, cond):
        if not isinstance(cond, SymBool): return bool(cond)
        known = self._known(cond)
        if known is not None: return known
        if self.pos < len(self.prefix):
            e = self.prefix[self.pos]
            if e.kind != 'branch': raise Inconclusive('nondeterministic execution (branch, expected %s)' % e.kind)
            choice = e.value[0]
        else:
            choice = cond.ev(self.model)
            other = snot(cond) if choice else cond
            m = self._check(other)
            if m is not None:
                self.pending.append((self.prefix + [_Entry('branch', (not choice, None))], m))
                self.stats.forks += 1
            e = _Entry('branch', (choice, None))
            self.prefix = self.prefix + [e]
        taken = cond if choice else snot(cond)
        self.path_cond.append(taken)
        self._learn(taken)
        self._advance(e, taken)
        return choice
    def concretize(self, x, limit=2000):
        ''' Fork over every feasible value of x. '''
        if not isinstance(x, SymInt): return x
        for _ in range(limit):
            v = self._record('pick', lambda: evaluate(x, self.model))
            if self.branch(x == v): return v
        raise Inconclusive('concretization of an unbounded integer')

    def pick(self, x): return self._record('pick', lambda: evaluate(x, self.model))

    def concretize_quotient(self, n, d, limit=200):
        ''' n // d (d > 0 known) over every feasible value, each given by the linear constraint q d <= n < (q+1) d. '''
        for _ in range(limit):
            v = self._record('pick', lambda: evaluate(n, self.model) // evaluate(d, self.model))
            if self.branch(sand(v * d <= n, n < (v + 1) * d)): return v
        raise Inconclusive('concretization of an unbounded quotient')

    # --- summaries: explore a call on its own and merge all of its outcomes into one
    def merged(self, fn):
        ''' fn() -> (tag, [numbers]); run it over all of its paths from here and return one merged (tag, numbers).
        Outcomes with different tags (or lengths) are kept apart by a genuine fork; exceptions count as outcomes. '''
        groups, defs, fresh = self._record('merge', lambda: self._explore_merge(fn))
        self.fresh = fresh
        for name, kind, data in defs: self._install(name, kind, data)
        for i, (tag, cond, outs, exc) in enumerate(groups):
            if i + 1 < len(groups) and not self.branch(cond): continue
            if exc is not None: raise exc
            return tag, list(outs)
        raise PathAbort()

    def _explore_merge(self, fn):
        saved = (self.prefix, self.pos, self.keep, self.stack, self.pending, self.path_cond, self.model, self.defs, self.fresh, self.epoch, self.facts, self.ites, self.base_cond)
        outcomes, all_defs = [], []
        todo = [([], dict(self.model))]
        fresh = self.fresh
        self.nested += 1
        try:
            while todo:
                pre, model = todo.pop()
                self.solver.push()
                self.prefix, self.pos, self.keep = pre, 0, 0
                self.stack, self.pending, self.path_cond = [], [], []
                self.model, self.fresh = model, fresh
                self.defs = list(saved[7])
                base = len(self.defs)
                self.facts, self.ites, self.base_cond = dict(saved[10]), dict(saved[11]), saved[12] + saved[5]
                # Variable names must not depend on the order of exploration, so replay uses the names recorded with the prefix.
                self.epoch = _next_epoch()
                exc, tag, outs, ok = None, None, [], True
                try:
                    try:
                        tag, outs = fn()
                        outs = [o.value() if isinstance(o, SymQuot) else o for o in outs]
                    except PathAbort: ok = False
                    except Exception as error:  # pylint: disable=broad-except
                        exc, tag, outs = error, ('raise', type(error).__name__, str(error)), []
                    if ok: outcomes.append((tag, list(self.path_cond), outs, exc, self.defs[base:]))
                finally:
                    todo.extend(self.pending)
                    for _ in self.stack: self.solver.pop()
                    self.solver.pop()
        finally:
            self.nested -= 1
            (self.prefix, self.pos, self.keep, self.stack, self.pending, self.path_cond, self.model, self.defs, self.fresh, self.epoch, self.facts, self.ites, self.base_cond) = saved
        # Rename the definitions of each outcome apart.
        renamed = []
        for index, (tag, pc, outs, exc, defs) in enumerate(outcomes):
            names = {}
            for name, kind, data in defs:
                fresh += 1
                new = '%s!%d' % (kind, fresh)
                all_defs.append((new, kind, _rename(data, names)))
                names[name] = new
            renamed.append((tag, _rename(sand(*pc), names), _rename(outs, names), exc))
        groups, by_tag = [], {}
        for item in renamed:
            k = (repr(item[0]), len(item[2]))
            if k not in by_tag: by_tag[k] = []
            by_tag[k].append(item)
        for items in by_tag.values():
            outs = []
            for j in range(len(items[0][2])):
                cases = []
                for it in items:
                    v = it[2][j]
                    for entry in cases:
                        if _same(entry[0], v): entry[1].append(it[1]); break
                    else: cases.append((v, [it[1]]))
                if len(cases) == 1: outs.append(cases[0][0]); continue
                fresh += 1
                name = 'cases!%d' % fresh
                all_defs.append((name, 'cases', [(sor(*cs) if i + 1 < len(cases) else True, v) for i, (v, cs) in enumerate(cases)]))
                outs.append(SymInt({name: 1}, 0))
            groups.append((items[0][0], sor(*[it[1] for it in items]), outs, items[0][3]))
        self.stats.merges += 1
        return groups, all_defs, fresh

    # --- assertions
    def check(self, cond, label='assert', info=None):
        ''' Decide: on this path, cond holds for every input. '''
        if self.nested: raise Inconclusive('check inside a summary')
        if self._replaying(): return  # Already decided when this part of the path was first executed.
        self.stats.checks += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if not isinstance(cond, SymBool):
            if cond: return
            raise CounterExample(label, self._assignment(self.model), info)
        if not cond.ev(self.model): raise CounterExample(label, self._assignment(self.model), info)
        m = self._check(snot(cond))
        if m is not None: raise CounterExample(label, self._assignment(m), info)
    def check_eq(self, xs, ys, label='equal', info=None):
        self.check(seq(xs, ys), label, info)
    def fail(self, label, info=None):
        self.check(False, label, info)
    def _assignment(self, m): return {name: m[name] for name in self.inputs if name in m}
    def note(self, *args): pass
    def possible(self, cond):
        ''' Whether cond can hold on this path (query only). '''
        if not isinstance(cond, SymBool): return bool(cond)
        return self._record('possible', lambda: self._check(cond) is not None)

    # --- main loop
    def explore(self, harness):
        global _cur
        todo = [([], {})]
        self.incomplete = None
        _cur = self
        try:
            while todo:
                if self.max_paths is not None and self.stats.paths >= self.max_paths: raise Inconclusive('path budget exhausted')
                pre, model = todo.pop()
                # Keep the common part of the solver stack.
                k = 0
                while k < len(pre) and k < len(self.stack) and pre[k] is self.stack[k]: k += 1
                while len(self.stack) > k:
                    self.solver.pop(); self.stack.pop()
                if k == 0:
                    self.solver.reset()
                self.prefix, self.pos, self.keep = pre, 0, k
                self.pending, self.path_cond, self.defs = [], [], []
                self.model, self.fresh = dict(model), 0
                self.facts, self.ites = {}, {}
                self.epoch = _next_epoch()
                before = self.stats.checks
                try:
                    harness(self)
                    self.stats.paths += 1
                    self.stats.witnesses += 1  # The path condition is satisfiable: self.model is a witness.
                    if self.stats.paths <= 4 or self.stats.paths % 16 == 0: self._witness()
                except PathAbort:
                    self.stats.cut += 1
                except Exception as error:  # pylint: disable=broad-except
                    # An exception that the harness did not expect, on a feasible path.
                    raise CounterExample('raised %s' % type(error).__name__, self._assignment(self.model), traceback.format_exc(limit=-6)) from None
                todo.extend(self.pending)
        finally:
            _cur = None
        if self.incomplete: raise Inconclusive(self.incomplete)  # Some paths could not be finished.
        return self.stats
    def _witness(self):
        if len(self.samples) >= 12: self.samples.pop(4)
        self.samples.append(self._assignment(self.model))

def _rename(x, names):
    if not names: return x
    if isinstance(x, SymInt):
        if not any(v in names for v in x.lin): return x
        return SymInt({names.get(v, v): c for v, c in x.lin.items()}, x.const)
    if isinstance(x, SymBool):
        k = x.t[0]
        if k in ('le', 'eq', 'ne'):
            if not any(v in names for v in x.t[1]): return x
            return SymBool((k, {names.get(v, v): c for v, c in x.t[1].items()}, x.t[2]))
        return SymBool((k, [_rename(y, names) for y in x.t[1]]))
    if isinstance(x, tuple): return tuple(_rename(y, names) for y in x)
    if isinstance(x, list): return [_rename(y, names) for y in x]
    return x

class PathDict:
    ''' A dictionary whose entries made during a path are forgotten at the end of that path. (Used for memoization caches.) '''
    def __init__(self, base=None):
        self.base = dict(base or {})
        self.over, self.epoch = {}, 0
    def _overlay(self):
        if _cur is None: return self.base
        if self.epoch != _cur.epoch: self.over, self.epoch = {}, _cur.epoch
        return self.over
    def __contains__(self, key): return key in self._overlay() or key in self.base
    def __getitem__(self, key):
        o = self._overlay()
        return o[key] if key in o else self.base[key]
    def __setitem__(self, key, value): self._overlay()[key] = value
    def get(self, key, default=None): return self[key] if key in self else default
    def items(self): return {**self.base, **self._overlay()}.items()
    def __iter__(self): return iter(dict(self.items()))
    def __len__(self): return len(dict(self.items()))
    def clear(self): self.base, self.over = {}, {}
    def pop(self, key, *default):
        for d in (self._overlay(), self.base):
            if key in d: return d.pop(key)
        if default: return default[0]
        raise KeyError(key)

class ConcreteCtx:
    ''' The same interface on ordinary integers: replays a counterexample on the real, unshimmed code. '''
    symbolic = False
    class Failed(Exception): pass
    class Skipped(Exception): pass
    def __init__(self, assignment):
        self.assignment = assignment
    def ints(self, name, n, lo=None, hi=None): return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]
    def int(self, name, lo=None, hi=None):
        v = self.assignment.get(name, lo if lo is not None else 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi): raise self.Skipped('%s out of range' % name)
        return v
    def bool(self, name): return self.int(name, 0, 1) == 1
    def choose(self, name, items):
        items = list(items)
        return items[self.int(name, 0, len(items)-1)]
    def assume(self, cond):
        if not cond: raise self.Skipped('assumption does not hold')
    def check(self, cond, label='assert', info=None):
        if not cond: raise self.Failed('%s %s' % (label, info if info is not None else ''))
    def check_eq(self, xs, ys, label='equal', info=None):
        if not (hasattr(xs, '__iter__') or hasattr(ys, '__iter__')): xs, ys = [xs], [ys]
        xs, ys = list(xs), list(ys)
        if xs != ys: raise self.Failed('%s: %s != %s %s' % (label, xs, ys, info if info is not None else ''))
    def fail(self, label, info=None): raise self.Failed('%s %s' % (label, info))
    def possible(self, cond): return bool(cond)
    def merged(self, fn): return fn()
    def note(self, *args): print('   ', *args)
    def concretize(self, x): return x
    def concretize_quotient(self, n, d): return n // d

_placeholders = {}
def placeholders():
    ''' Strings that stand for symbolic integers (see ctx.placeholder). '''
    return _placeholders
