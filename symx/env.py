''' Load curver from /repo's current working tree and (in symbolic mode only) put the shims in place.

Shims: every module of curver.kernel gets its own globals `max`, `min`, `int`, `abs`, `Fraction` which agree with the
real ones on ordinary values and build merged terms on symbolic ones; the `_cache` attribute used for memoization is
replaced by one that forgets at the end of each path whatever was computed on that path; and Lamination.__hash__ is
constant while a path is explored (equal objects still have equal hashes, dictionaries then compare with ==, which forks). '''

import builtins
import fractions
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

def load_curver():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'  # Never read a stale .pyc: always compile the current source.
    if REPO not in sys.path: sys.path.insert(0, REPO)
    import curver
    root = os.path.realpath(REPO)
    assert os.path.realpath(curver.__file__).startswith(root + os.sep), curver.__file__
    return curver

def load_z3():
    if VT not in sys.path: sys.path.append(VT)
    import z3
    return z3

_installed = False
def install_shims():
    global _installed
    curver = load_curver()
    load_z3()
    if _installed: return curver
    _installed = True
    from . import engine as E

    def _many(kind, real):
        def shim(*args, **kwargs):
            if kwargs.get('key') is not None or not args: return real(*args, **kwargs)
            items = args
            if len(args) == 1:
                items = list(args[0])
                if not items or not any(isinstance(x, (E.SymInt, E.SymQuot, E.SymFrac)) for x in items): return real(items, **kwargs)
            elif not any(isinstance(x, (E.SymInt, E.SymQuot, E.SymFrac)) for x in items): return real(*args, **kwargs)
            return E.smax(*items) if kind == 'max' else E.smin(*items)
        shim.__name__ = kind
        return shim

    class IntMeta(type):
        def __instancecheck__(cls, x): return isinstance(x, (builtins.int, E.SymInt, E.SymQuot))
        def __subclasscheck__(cls, sub): return issubclass(sub, (builtins.int, E.SymInt, E.SymQuot))
    class int_(builtins.int, metaclass=IntMeta):
        def __new__(cls, x=0, *args):
            if isinstance(x, (E.SymInt, E.SymQuot)): return x
            if isinstance(x, E.SymFrac): return x.__trunc__()
            if isinstance(x, str) and not args and x in E.placeholders(): return E.placeholders()[x]
            return builtins.int(x, *args)

    class FracMeta(type(fractions.Fraction)):
        def __instancecheck__(cls, x): return isinstance(x, (fractions.Fraction, E.SymFrac))
    class Fraction_(fractions.Fraction, metaclass=FracMeta):
        def __new__(cls, a=0, b=None):
            if E.is_sym(a) or E.is_sym(b): return E.SymFrac(a, 1 if b is None else b)
            return fractions.Fraction(a, b)

    shims = {'max': _many('max', builtins.max), 'min': _many('min', builtins.min), 'int': int_}
    for name, module in list(sys.modules.items()):
        if name.startswith('curver.kernel.') and module is not None:
            for k, v in shims.items():
                if k not in module.__dict__: module.__dict__[k] = v
            if module.__dict__.get('Fraction') is fractions.Fraction: module.__dict__['Fraction'] = Fraction_

    concrete = {}
    class ConcreteCache(E.PathDict):
        def _overlay(self): return self.base

    class Cache:
        def __get__(self, obj, cls=None):
            if obj is None: return self
            try: return obj.__dict__['_path_cache']
            except KeyError: raise AttributeError('_cache') from None
        def __set__(self, obj, value):
            if E._cur is not None and isinstance(obj, curver.kernel.Lamination) and type(value) is dict and not value and all(type(x) is builtins.int for x in obj.geometric):
                # What is computed from a concrete lamination alone does not depend on the path: share it between equal laminations.
                key = (type(obj), tuple(obj.triangulation.signature), tuple(obj.geometric))
                if key not in concrete: concrete[key] = ConcreteCache()
                obj.__dict__['_path_cache'] = concrete[key]
                return
            obj.__dict__['_path_cache'] = value if isinstance(value, E.PathDict) else E.PathDict(value)
            if E._cur is not None and not isinstance(value, E.PathDict): 
                obj.__dict__['_path_cache'] = E.PathDict({})
                for k, v in value.items(): obj.__dict__['_path_cache'][k] = v
        def __delete__(self, obj): obj.__dict__.pop('_path_cache', None)

    K = curver.kernel
    bases = [K.Triangulation, K.Lamination, K.Encoding, K.Move, K.HomologyClass, K.CurveGraph, K.FiniteSubgroup, K.MappingClassGroup]
    for cls in bases:
        cls._cache = Cache()

    # Faster equivalents of library functions used by the decorators.
    import decorator, inspect
    decorators = sys.modules['curver.kernel.decorators']
    signatures = {}
    def params(fn):
        if fn not in signatures:
            ps = list(inspect.signature(fn).parameters.values())
            simple = all(p.kind == p.POSITIONAL_OR_KEYWORD for p in ps)
            signatures[fn] = ([p.name for p in ps], [p.default for p in ps]) if simple else None
        return signatures[fn]
    def bind(fn, args, kwargs):
        ps = params(fn)
        if ps is None or len(args) > len(ps[0]): return None
        out = list(args)
        for name, default in list(zip(*ps))[len(args):]:
            if name in kwargs: out.append(kwargs[name])
            elif default is inspect.Parameter.empty: return None
            else: out.append(default)
        if len(args) + len(kwargs) > len(ps[0]) or any(k not in ps[0][len(args):] for k in kwargs): return None
        return out
    class FastInspect:
        def __getattr__(self, name): return getattr(inspect, name)
        def getcallargs(self, fn, *args, **kwargs):
            out = bind(fn, args, kwargs)
            return inspect.getcallargs(fn, *args, **kwargs) if out is None else dict(zip(params(fn)[0], out))
    if getattr(decorators, 'inspect', None) is inspect: decorators.inspect = FastInspect()
    real_fix = decorator.fix
    fixed = {}
    def fix(args, kwargs, sig):
        if id(sig) not in fixed:
            ps = list(sig.parameters.values())
            fixed[id(sig)] = (sig, [(p.name, p.default) for p in ps] if all(p.kind == p.POSITIONAL_OR_KEYWORD for p in ps) else None)
        ps = fixed[id(sig)][1]
        if ps is None or kwargs or len(args) > len(ps): return real_fix(args, kwargs, sig)
        rest = [d for _, d in ps[len(args):]]
        if any(d is inspect.Parameter.empty for d in rest): return real_fix(args, kwargs, sig)
        return tuple(args) + tuple(rest), {}
    decorator.fix = fix

    # Moves built from concrete data alone are shared between paths.
    def share(cls, name, simple):
        real, memo = getattr(cls, name), {}
        def wrapper(self, *args):
            if E._cur is None or not all(isinstance(x, simple) for x in args): return real(self, *args)
            key = (tuple(self.signature), args)
            if key not in memo: memo[key] = real(self, *args)
            return memo[key]
        wrapper.__name__, wrapper.__wrapped__ = name, real
        setattr(cls, name, wrapper)
    share(K.Triangulation, 'encode_flip', (builtins.int, K.Edge))
    share(K.Triangulation, 'id_encoding', ())

    def constant_hash(real):
        return lambda self: real(self) if E._cur is None or E.hash_log is not None else 7
    for cls in [K.Lamination] + _subclasses(K.Lamination):
        if '__hash__' in cls.__dict__ and cls.__dict__['__hash__'] is not None: cls.__hash__ = constant_hash(cls.__hash__)
    return curver

def _subclasses(cls):
    out = []
    for c in cls.__subclasses__(): out += [c] + _subclasses(c)
    return out

class promote_stub:
    ''' While active (symbolic mode) Lamination.promote only turns a lamination into the given class
    (the class does not affect the weights; the finest class is found by `shorten`, which has its own property). '''
    def __init__(self, curver, cls_name='IntegralLamination'):
        self.curver, self.cls_name = curver, cls_name
    def __enter__(self):
        K = self.curver.kernel
        self.real = K.Lamination.promote
        cls = getattr(K, self.cls_name)
        K.Lamination.promote = lambda lam: lam if isinstance(lam, K.IntegralLamination) else cls(lam.triangulation, lam.geometric)
    def __exit__(self, *args):
        self.curver.kernel.Lamination.promote = self.real
