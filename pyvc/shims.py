"""Models of numpy, scipy.linalg and builtins for symbolic values."""
import builtins
import itertools
import numbers
import types

import numpy as real_np
import scipy.linalg as real_la

import z3

from . import core
from .core import S, Unsupported, PathEnd, lift, truth, cur, ite, s_min, s_max, to_real, num, is_num


# ----------------------------------------------------------- generic vectors
def is_gv(x):
    return isinstance(x, GV)


class GV:
    """
    Vector (or stack of vectors) with any number of components, given by a
    function from the index of the last axis to the component.  Operations are
    elementwise, so that one generic row stands for all rows of a stack.
    """
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, fct, name=None):
        self.fct = fct
        self.cache = {}
        self.writes = 0
        self.name = name

    def at(self, i):
        key = i.get_id() if z3.is_expr(i) else i
        if key not in self.cache:
            self.cache[key] = (self.fct(i), i)
        return self.cache[key][0]

    @staticmethod
    def of(x):
        if isinstance(x, GV):
            return x.at
        if isinstance(x, S) or is_num(x):
            return lambda i: x
        if isinstance(x, real_np.ndarray) and x.shape == ():
            return lambda i: x.item()
        raise Unsupported('vector operation with {}'.format(type(x).__name__))

    def map(self, op, *others):
        if any(not (isinstance(o, (GV, S)) or is_num(o)) for o in others):
            return NotImplemented
        fcts = [GV.of(o) for o in (self, ) + others]
        # the value of an argument which is changed in place later is the one now
        snap = [GV(f.__self__.fct) if hasattr(f, '__self__') else None for f in fcts]
        for f, s in zip(fcts, snap):
            if s is not None:
                s.cache = dict(f.__self__.cache)
                f.__self__.shared = True
        gets = [s.at if s is not None else f for f, s in zip(fcts, snap)]
        # components are computed once and shared between snapshots
        orig = [f.__self__ if hasattr(f, '__self__') else None for f in fcts]
        vers = [o.writes if o is not None else 0 for o in orig]

        def get(k, i):
            o = orig[k]
            if o is not None and o.writes == vers[k]:
                return o.at(i)
            return gets[k](i)

        return GV(lambda i: op(*[get(k, i) for k in range(len(fcts))]))

    def _inplace(self, op, other):
        new = self.map(op, other)
        if new is NotImplemented:
            return new
        old = GV(self.fct)
        old.cache = self.cache
        self.cache = {}
        ofct = GV.of(other) if other is not self else old.at
        self.fct = lambda i: op(old.at(i), ofct(i))
        self.writes += 1
        return self

    def __getattr__(self, name):
        if name in ('shape', 'ndim', 'dtype', 'T', 'flat'):
            raise Unsupported('attribute {} of a generic vector'.format(name))
        raise AttributeError(name)

    def __bool__(self):
        raise Unsupported('truth value of a vector')

    def __len__(self):
        raise Unsupported('number of components')

    def __iter__(self):
        raise Unsupported('iteration over components')

    def __getitem__(self, key):
        if key is Ellipsis or key == slice(None) or key == (Ellipsis, slice(None)):
            return self
        if key is None or (isinstance(key, tuple) and all(k is None or k == slice(None) or k is Ellipsis for k in key) and key and key[-1] is not None):
            return self  # new leading axes
        raise Unsupported('component {}'.format(key))

    def __setitem__(self, key, val):
        if isinstance(key, GV):
            vf = GV.of(val)
            old = GV(self.fct)
            old.cache, self.cache = self.cache, {}
            self.fct = lambda i: ite(key.at(i), vf(i), old.at(i))
            self.writes += 1
            return
        if key is Ellipsis or key == slice(None):
            vf = GV.of(val)
            self.cache, self.fct = {}, vf
            self.writes += 1
            return
        raise Unsupported('setting components')

    def copy(self):
        return self.map(lambda a: a)

    def astype(self, t, **kw):
        t = real_type(t)
        return self.map(lambda a: a.astype(t) if isinstance(a, S) else t(a))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __hash__(self):
        raise TypeError('unhashable')


for _name, _op in [
    ('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('truediv', lambda a, b: a / b), ('mod', lambda a, b: a % b),
    ('floordiv', lambda a, b: a // b)
]:
    setattr(GV, '__{}__'.format(_name), lambda self, o, _op=_op: self.map(_op, o))
    setattr(GV, '__r{}__'.format(_name), lambda self, o, _op=_op: self.map(lambda a, b: _op(b, a), o))
    setattr(GV, '__i{}__'.format(_name), lambda self, o, _op=_op: self._inplace(_op, o))
for _name, _op in [
    ('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b), ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b),
    ('and', lambda a, b: a & b), ('or', lambda a, b: a | b), ('pow', lambda a, b: a**b)
]:
    setattr(GV, '__{}__'.format(_name), lambda self, o, _op=_op: self.map(_op, o))
for _name, _op in [('and', lambda a, b: a & b), ('or', lambda a, b: a | b), ('pow', lambda a, b: a**b)]:
    setattr(GV, '__i{}__'.format(_name), lambda self, o, _op=_op: self._inplace(_op, o))
GV.__neg__ = lambda self: self.map(lambda a: -a)
GV.__pos__ = lambda self: self.copy()
GV.__abs__ = lambda self: self.map(abs)
GV.__invert__ = lambda self: self.map(lambda a: ~a if isinstance(a, S) else not a)


def new_vector(name, fct=None):
    """Vector of unknown real components."""
    vc = cur()
    vc.counter['vec'] = vc.counter.get('vec', 0) + 1
    f = z3.Function('{}!v{}'.format(name, vc.counter['vec']), z3.IntSort(), z3.RealSort())
    return GV(lambda i: S(f(i)), name=name)


def new_int_vector(name):
    vc = cur()
    vc.counter['vec'] = vc.counter.get('vec', 0) + 1
    f = z3.Function('{}!v{}'.format(name, vc.counter['vec']), z3.IntSort(), z3.IntSort())
    return GV(lambda i: S(f(i)), name=name)


def gv_all(v):
    """∀ i. v[i] as a truth value, with a witness if it is false."""
    vc = cur()
    b = vc.fresh_expr(z3.BoolSort(), 'all')
    j = vc.index('w')
    vc.fact(z3.Implies(z3.Not(b), z3.Not(truth(v.at(j)))))
    vc.forall(lambda i: z3.Implies(b, truth(v.at(i))))
    return S(b)


def gv_norm(v):
    """
    Euclidean norm, of which only these facts are used: it is not negative, it
    is zero exactly for the zero vector, it does not decrease if no component
    decreases in magnitude.
    """
    vc = cur()
    n = vc.fresh_expr(z3.RealSort(), 'norm')
    vc.trusted.add('facts about the Euclidean norm: non-negative, zero only for the zero vector, monotone in the magnitude of the components, and not smaller than any component')
    vc.fact(n >= 0)
    j = vc.index('w')
    vc.fact(z3.Implies(n > 0, lift(v.at(j)) != 0))
    vc.forall(lambda i: z3.And(to_real(lift(v.at(i))) <= n, -to_real(lift(v.at(i))) <= n))
    mag = lambda e: z3.If(e >= 0, e, -e)
    for m, w in vc.norms:
        for (x, vx), (y, vy) in (((n, v), (m, w)), ((m, w), (n, v))):
            j = vc.index('w')
            ex, ey = to_real(lift(vx.at(j))), to_real(lift(vy.at(j)))
            vc.fact(z3.Or(x <= y, mag(ex) > mag(ey)))
    vc.norms.append((n, v))
    return S(n)


# ---------------------------------------------------- arrays of known shape
class Arr:
    """Array of known shape whose entries may be symbolic."""
    __array_ufunc__ = None
    __array_priority__ = 1500

    def __init__(self, data, freeze=None):
        if isinstance(data, Arr):
            data = data.a
        if not (isinstance(data, real_np.ndarray) and data.dtype == object):
            data = obj_array(data)
        self.a = data
        self.writes = 0

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return Arr(self.a.T)

    @property
    def dtype(self):
        return real_np.dtype(float)

    @property
    def flat(self):
        return iter(self.a.flat)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for x in self.a:
            yield wrap(x)

    def __getitem__(self, key):
        key = fix_key(key, self)
        if isinstance(key, SymIndex):
            return key.select(self)
        return wrap(self.a[key])

    def __setitem__(self, key, val):
        key = fix_key(key, self)
        if isinstance(key, SymIndex):
            raise Unsupported('setting entries with a symbolic index')
        v = val.a if isinstance(val, Arr) else val
        if isinstance(v, (list, tuple)):
            v = obj_array(v)
        self.a[key] = v

    def __array__(self, dtype=None, copy=None):
        flat = self.a.reshape(-1)
        if dtype is None and flat.size and all(isinstance(x, S) and x.is_bool or isinstance(x, (bool, real_np.bool_)) for x in flat):
            # a mask which is used with an array of numbers
            return real_np.array([builtins.bool(x) for x in flat], dtype=bool).reshape(self.a.shape)
        return self.a if dtype is None else self.a.astype(dtype)

    def __repr__(self):
        return 'Arr({})'.format(self.a.tolist())

    def __bool__(self):
        if self.a.size == 1:
            return builtins.bool(self.a.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __hash__(self):
        raise TypeError('unhashable')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self):
        return Arr(self.a.copy())

    def tolist(self):
        return self.a.tolist()

    def astype(self, t, **kw):
        t = real_type(t)
        return Arr(vectorized(lambda x: x.astype(t) if isinstance(x, S) else t(x), self.a))

    def reshape(self, *shape):
        return Arr(self.a.reshape(*shape))

    def ravel(self):
        return Arr(self.a.ravel())

    flatten = ravel

    def item(self):
        return self.a.item()

    def sum(self, axis=None):
        return NP.sum(self, axis=axis)

    def all(self, axis=None):
        return NP.all(self, axis=axis)

    def any(self, axis=None):
        return NP.any(self, axis=axis)

    def max(self, axis=None):
        return NP.max(self, axis=axis)

    def min(self, axis=None):
        return NP.min(self, axis=axis)

    def argmin(self):
        return NP.argmin(self)

    def argsort(self):
        return NP.argsort(self)

    def mean(self, axis=None):
        return NP.mean(self, axis=axis)

    def dot(self, o):
        return NP.dot(self, o)

    def __matmul__(self, o):
        return NP.dot(self, o)

    def __rmatmul__(self, o):
        return NP.dot(o, self)

    def take(self, ind, axis=None):
        return NP.take(self, ind, axis)


def vectorized(f, *args):
    n = len(args)
    res = real_np.frompyfunc(f, n, 1)(*args)
    if not isinstance(res, real_np.ndarray) or res.dtype != object:
        cell = real_np.empty((), dtype=object)
        cell[()] = res
        return cell
    return res


def obj_array(data):
    """Object array of nested lists, with arrays and symbolic scalars as leaves."""
    if isinstance(data, Arr):
        return data.a.copy()
    if isinstance(data, real_np.ndarray):
        return data.astype(object)
    if isinstance(data, (list, tuple)):
        parts = [obj_array(x) for x in data]
        if not parts:
            return real_np.empty((0, ), dtype=object)
        shape = parts[0].shape
        if any(p.shape != shape for p in parts):
            raise ValueError('setting an array element with a sequence')
        res = real_np.empty((len(parts), ) + shape, dtype=object)
        for i, p in enumerate(parts):
            res[i] = p if p.shape else p.item()
        return res
    cell = real_np.empty((), dtype=object)
    cell[()] = data
    return cell


def wrap(x):
    if isinstance(x, real_np.ndarray):
        if x.shape == ():
            return x.item()
        return Arr(x)
    return x


class SymIndex:
    """Indices which are symbolic integers."""

    def __init__(self, idx):
        self.idx = idx  # object array or scalar S

    def select_one(self, arr, i):
        """arr[i] for a symbolic i as a chain of conditions"""
        i = lift(i)
        n = len(arr.a)

        def pick(cells):
            res = cells[-1]
            for k in range(len(cells) - 2, -1, -1):
                res = ite(S(i == k), cells[k], res)
            return res

        if arr.a.ndim == 1:
            return pick([arr.a[k] for k in range(n)])
        flat = arr.a.reshape(n, -1)
        out = real_np.empty(flat.shape[1], dtype=object)
        for c in range(flat.shape[1]):
            out[c] = pick([flat[k, c] for k in range(n)])
        return Arr(out.reshape(arr.a.shape[1:]))

    def select(self, arr):
        if isinstance(self.idx, S):
            return self.select_one(arr, self.idx)
        return Arr([self.select_one(arr, i) for i in self.idx.reshape(-1)])


class Perm(Arr):
    """Some permutation, as symbolic integers."""


class PermIndex(SymIndex):
    """The entries are new unknowns, with one case for each index."""

    def select(self, arr):
        vc = cur()
        n = len(arr.a)
        flat = arr.a.reshape(n, -1)
        out = real_np.empty(flat.shape, dtype=object)
        for r, i in enumerate(self.idx):
            row = [vc.real('taken') for _ in range(flat.shape[1])]
            for k in range(n):
                vc.fact(z3.Implies(lift(i) == k, z3.And([x.e == to_real(lift(y)) for x, y in zip(row, flat[k])])))
            out[r] = row
        return Arr(out.reshape(arr.a.shape))


def fix_key(key, arr):
    if isinstance(key, S):
        if key.is_int:
            e = z3.simplify(key.e)
            if z3.is_int_value(e):
                return e.as_long()
            return SymIndex(key)
        raise Unsupported('mask')
    if isinstance(key, Arr):
        if key.a.dtype == object and any(isinstance(x, S) for x in key.a.flat):
            if all(isinstance(x, S) and x.is_bool or isinstance(x, (bool, real_np.bool_)) for x in key.a.flat):
                return real_np.array([builtins.bool(x) for x in key.a.flat], dtype=bool).reshape(key.a.shape)
            return PermIndex(key.a) if isinstance(key, Perm) else SymIndex(key.a)
        if all(isinstance(x, (bool, real_np.bool_)) for x in key.a.flat):
            return key.a.astype(bool)
        return key.a.astype(int)
    if isinstance(key, tuple):
        res = tuple(fix_key(k, arr) for k in key)
        if any(isinstance(k, SymIndex) for k in res):
            raise Unsupported('several symbolic indices')
        return res
    if isinstance(key, list):
        return [fix_key(k, arr) for k in key]
    return key


def raw(x):
    if isinstance(x, Arr):
        return x.a
    if isinstance(x, (list, tuple)):
        return obj_array(x)
    return x


def arr_op(op):

    def f(*args):
        for a in args:
            if isinstance(a, GV):
                return NotImplemented
            if isinstance(a, core_seq_types):
                return NotImplemented
        try:
            rargs = []
            for a in args:
                r = raw(a)
                if isinstance(r, S):
                    cell = real_np.empty((), dtype=object)
                    cell[()] = r
                    r = cell
                elif isinstance(r, real_np.ndarray) and r.dtype != object:
                    r = r.astype(object)
                rargs.append(r)
            return wrap(vectorized(op, *rargs))
        except ValueError:
            raise

    return f


core_seq_types = ()


def _install():
    import operator

    def rev(op):
        return lambda a, b: op(b, a)

    def inplace(op):
        fun = arr_op(op)

        def g(self, o):
            res = fun(self, o)
            if res is NotImplemented:
                return res
            self.a[...] = raw(res)
            return self

        return g

    for name, op in [
        ('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv), ('mod', operator.mod), ('floordiv', operator.floordiv),
        ('pow', operator.pow), ('and', operator.and_), ('or', operator.or_)
    ]:
        setattr(Arr, '__{}__'.format(name), (lambda fun: lambda self, o: fun(self, o))(arr_op(op)))
        setattr(Arr, '__r{}__'.format(name), (lambda fun: lambda self, o: fun(self, o))(arr_op(rev(op))))
        setattr(Arr, '__i{}__'.format(name), inplace(op))
    for name, op in [('lt', operator.lt), ('le', operator.le), ('gt', operator.gt), ('ge', operator.ge), ('eq', operator.eq), ('ne', operator.ne)]:
        setattr(Arr, '__{}__'.format(name), (lambda fun: lambda self, o: fun(self, o))(arr_op(op)))
    Arr.__neg__ = lambda self: wrap(vectorized(operator.neg, self.a))
    Arr.__pos__ = lambda self: self.copy()
    Arr.__abs__ = lambda self: wrap(vectorized(abs, self.a))
    Arr.__invert__ = lambda self: wrap(vectorized(lambda x: ~x if isinstance(x, S) else not x, self.a))


_install()


def symbolic(x, depth=0):
    """Does x contain symbolic values?"""
    if isinstance(x, (S, GV, Arr)) or isinstance(x, core_seq_types) or hasattr(x, '_vc_symbolic'):
        return True
    if depth < 4 and isinstance(x, (list, tuple, set, frozenset)):
        return any(symbolic(y, depth + 1) for y in x)
    if depth < 4 and isinstance(x, dict):
        return any(symbolic(y, depth + 1) for y in x.values())
    if isinstance(x, real_np.ndarray) and x.dtype == object:
        return any(symbolic(y, depth + 1) for y in x.flat)
    return False


def reduce_axis(x, axis, f):
    """Reduce an array with f(list) -> scalar."""
    a = raw(x)
    if not isinstance(a, real_np.ndarray):
        return f([a])
    if axis is None:
        return f(list(a.reshape(-1)))
    if isinstance(axis, tuple):
        raise Unsupported('several axes')
    moved = real_np.moveaxis(a, axis, -1)
    if moved.ndim == 1:
        return f(list(moved))
    res = real_np.empty(moved.shape[:-1], dtype=object)
    for idx in real_np.ndindex(*moved.shape[:-1]):
        res[idx] = f(list(moved[idx]))
    return Arr(res)


def fold(op, empty=None):

    def f(items):
        items = list(items)
        if not items:
            if empty is None:
                raise ValueError('zero-size array to reduction operation')
            return empty
        res = items[0]
        for y in items[1:]:
            res = op(res, y)
        return res

    return f


def sym_sqrt(x):
    """sqrt: the non-negative root"""
    if not isinstance(x, S):
        return real_np.sqrt(x)
    vc = cur()
    e = to_real(x.e)
    if not vc.entails(e >= 0):
        raise Unsupported('square root of a number which may be negative')
    key = ('sqrt', e.get_id())
    if key not in vc.memo:
        r = vc.fresh_expr(z3.RealSort(), 'sqrt')
        vc.fact(r >= 0, r * r == e)
        vc.memo[key] = (r, e)
    return S(vc.memo[key][0])


def uninterpreted(name, x):
    """Unknown real function (exp, sin, ...)."""
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    return S(f(to_real(lift(x))))


class _NP:
    """numpy"""
    ndarray = real_np.ndarray
    inf = real_np.inf
    nan = real_np.nan
    pi = real_np.pi
    newaxis = None
    float64 = real_np.float64
    bool_ = real_np.bool_
    integer = real_np.integer

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        fun = getattr(real_np, name)
        if callable(fun) and not isinstance(fun, type):

            def guarded(*args, **kwargs):
                if symbolic(args) or symbolic(kwargs):
                    if name in STRUCTURAL and entries_only(args) and entries_only(kwargs):
                        res = fun(*plain_objects(args), **plain_objects(kwargs))
                        return [Arr(x) for x in res] if isinstance(res, (list, tuple)) else wrap(res)
                    raise Unsupported('numpy.{}'.format(name))
                return fun(*args, **kwargs)

            return guarded
        return fun

    # -- construction
    def array(self, data, dtype=None, copy=True, **kw):
        dtype = real_type(dtype)
        if hasattr(data, '_vc_array'):
            return data._vc_array(dtype)
        if isinstance(data, GV):
            res = data.copy() if copy else data
        elif isinstance(data, Arr):
            res = data.copy() if copy else data
        elif isinstance(data, S):
            res = data
        elif symbolic(data):
            items = list(data)
            from .seq import Spread, Mixed
            if any(isinstance(x, Spread) for x in items):
                return Mixed(items)
            if items and all(isinstance(x, GV) for x in items):
                raise Unsupported('array of generic vectors')
            res = Arr(obj_array(items))
        else:
            return real_np.array(data, dtype=dtype, **kw)
        if dtype in (float, real_np.float64, 'float', 'float64', None):
            return res
        return res.astype(dtype)

    def asarray(self, data, dtype=None, **kw):
        dtype = real_type(dtype)
        if isinstance(data, (GV, Arr)) and dtype in (float, None):
            return data
        return self.array(data, dtype=dtype)

    asanyarray = asarray

    def copy(self, x):
        if isinstance(x, (GV, Arr)):
            return x.copy()
        if hasattr(x, '_vc_symbolic') and hasattr(x, 'copy'):
            return x.copy()
        return self.array(x)

    def empty(self, shape=None, dtype=None, **kw):
        if symbolic(shape):
            if real_type(dtype) is not object:
                raise Unsupported('array of symbolic shape')
            return VGrid(list(shape))
        return real_np.empty(shape, dtype=real_type(dtype) or float, **kw)

    def _fresh(self, x):
        return Arr(x) if core.CUR is not None and core.CUR.object_arrays else x

    def zeros(self, shape, dtype=None, **kw):
        if symbolic(shape):
            return SymRows(shape, 0.)
        return self._fresh(real_np.zeros(shape, dtype=real_type(dtype) or float, **kw))

    def ones(self, shape, dtype=None, **kw):
        if symbolic(shape):
            raise Unsupported('array of symbolic shape')
        return self._fresh(real_np.ones(shape, dtype=real_type(dtype) or float, **kw))

    def full(self, shape, val, dtype=None, **kw):
        if symbolic(shape):
            raise Unsupported('array of symbolic shape')
        if symbolic(val):
            return Arr(real_np.broadcast_to(raw(val) if not isinstance(val, S) else obj_array(val), shape).copy())
        return self._fresh(real_np.full(shape, val, dtype=real_type(dtype), **kw))

    def eye(self, *args, dtype=None, **kw):
        if symbolic(args):
            raise Unsupported('array of symbolic shape')
        return self._fresh(real_np.eye(*args, dtype=real_type(dtype) or float, **kw))

    identity = eye

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, **kw):
        if not symbolic((start, stop, num)):
            return real_np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=real_type(dtype), **kw)
        if kw or retstep or real_type(dtype) not in (None, float):
            raise Unsupported('linspace options')
        from .seq import SymSeq
        vc = cur()
        start, stop = S(to_real(lift(start))), S(to_real(lift(stop)))
        endpoint = builtins.bool(endpoint)
        n = lift(num)
        if z3.is_int_value(z3.simplify(n)):
            n = z3.simplify(n).as_long()
            if n < 0:
                raise ValueError('Number of samples, %s, must be non-negative.' % n)
            div = builtins.max(n - 1, 1) if endpoint else builtins.max(n, 1)
            return Arr([start + (stop - start) * k / div for k in range(n)])
        if not vc.entails(n >= 1):
            raise Unsupported('linspace with an unknown number of points')
        step = vc.fresh_expr(z3.RealSort(), 'step')
        many = n - 1 if endpoint else n
        vc.fact(z3.Implies(many > 0, step * z3.ToReal(many) == (stop - start).e), z3.Implies(many <= 0, step == 0))
        if vc.linspace_error is None:
            return SymSeq(n, lambda k: start + S(z3.ToReal(k)) * S(step), name='linspace')
        # with rounding
        err = z3.Function('rounding!{}'.format(vc.fresh_expr(z3.IntSort(), 'r')), z3.IntSort(), z3.RealSort())

        def point(k):
            vc.fact(err(k) <= vc.linspace_error, -err(k) <= vc.linspace_error)
            return start + S(z3.ToReal(k)) * S(step) + S(err(k))

        return SymSeq(n, point, name='linspace')

    def cos(self, a):
        return self._elem(lambda x: trig(x)[0] if isinstance(x, S) else real_np.cos(x), real_np.cos, a)

    def sin(self, a):
        return self._elem(lambda x: trig(x)[1] if isinstance(x, S) else real_np.sin(x), real_np.sin, a)

    def sign(self, a):
        return self._elem(lambda x: S(z3.If(num(x.e) > 0, z3.RealVal(1), z3.If(num(x.e) < 0, z3.RealVal(-1), z3.RealVal(0)))) if isinstance(x, S) else real_np.sign(x), real_np.sign, a)

    def frompyfunc(self, f, nin, nout):
        real = real_np.frompyfunc(f, nin, nout)

        def call(*args):
            if any(isinstance(a, VGrid) for a in args):
                if nin != 1 or len(args) != 2 or args[0] is not args[1]:
                    raise Unsupported('frompyfunc')
                args[0].fill(f)
                return args[0]
            if symbolic(args):
                raise Unsupported('frompyfunc')
            return real(*args)

        return call

    def full_like(self, x, val, dtype=None, **kw):
        if isinstance(x, Arr):
            return Arr(real_np.full(x.shape, val, dtype=object))
        if isinstance(x, GV):
            return x.map(lambda a: val)
        return real_np.full_like(x, val, dtype=real_type(dtype), **kw)

    def zeros_like(self, x, **kw):
        if isinstance(x, GV):
            return x.map(lambda a: 0. * a)
        if isinstance(x, Arr):
            return real_np.zeros(x.shape).astype(object) if False else Arr(real_np.zeros(x.shape))
        return real_np.zeros_like(x, **kw)

    def atleast_1d(self, x):
        if symbolic(x):
            if isinstance(x, S):
                return Arr([x])
            return self.asarray(x)
        return real_np.atleast_1d(x)

    # -- elementwise
    def _elem(self, op, realf, *args):
        if any(isinstance(a, GV) for a in args):
            vec = [a for a in args if isinstance(a, GV)][0]
            fcts = [GV.of(a) for a in args]
            return GV(lambda i: op(*[f(i) for f in fcts]))
        if any(symbolic(a) for a in args):
            if all(isinstance(a, S) or is_num(a) for a in args):
                return op(*args)
            return arr_op(op)(*args)
        return realf(*args)

    def minimum(self, a, b):
        return self._elem(s_min, real_np.minimum, a, b)

    def maximum(self, a, b):
        return self._elem(s_max, real_np.maximum, a, b)

    fmin, fmax = minimum, maximum

    def abs(self, a):
        return self._elem(abs, real_np.abs, a)

    absolute = fabs = abs

    def negative(self, a):
        return self._elem(lambda x: -x, real_np.negative, a)

    def square(self, a):
        return self._elem(lambda x: x * x, real_np.square, self._l(a))

    def sqrt(self, a):
        return self._elem(sym_sqrt, real_np.sqrt, a)

    def mod(self, a, b):
        return self._elem(lambda x, y: x % y, real_np.mod, a, b)

    remainder = mod

    def add2(self, a, b):
        return self._elem(lambda x, y: x + y, real_np.add, a, b)

    def subtract(self, a, b):
        return self._elem(lambda x, y: x - y, real_np.subtract, a, b)

    def multiply(self, a, b):
        return self._elem(lambda x, y: x * y, real_np.multiply, a, b)

    def divide(self, a, b):
        return self._elem(lambda x, y: x / y, real_np.divide, a, b)

    true_divide = divide

    def floor(self, a):
        return self._elem(lambda x: S(z3.ToReal(core.floor_int(x).e)) if isinstance(x, S) else real_np.floor(x), real_np.floor, a)

    def ceil(self, a):
        return self._elem(lambda x: S(-z3.ToReal(core.floor_int(-x).e)) if isinstance(x, S) else real_np.ceil(x), real_np.ceil, a)

    def trunc(self, a):
        def cut(x):
            if not isinstance(x, S):
                return real_np.trunc(x)
            up, down = core.floor_int(-x).e, core.floor_int(x).e
            return S(z3.If(to_real(x.e) >= 0, z3.ToReal(down), -z3.ToReal(up)))

        return self._elem(cut, real_np.trunc, a)

    fix = trunc

    def fmod(self, a, b):
        return self._elem(lambda x, y: x - y * self.trunc(x / y), real_np.fmod, a, b)

    def floor_divide(self, a, b):
        return self._elem(lambda x, y: x // y, real_np.floor_divide, a, b)

    def power(self, a, b):
        return self._elem(lambda x, y: x**y, real_np.power, a, b)

    def hypot(self, a, b):
        return self._elem(lambda x, y: sym_sqrt(x * x + y * y), real_np.hypot, a, b)

    def ptp(self, x, axis=None):
        if not symbolic(x):
            return real_np.ptp(x, axis=axis)
        return self.max(x, axis=axis) - self.min(x, axis=axis)

    def round(self, a, decimals=0):
        if decimals and symbolic(a):
            if not isinstance(decimals, int):
                raise Unsupported('round')
            scale = 10**decimals if decimals > 0 else 1 / 10**-decimals
            return self.round(a * scale) / scale
        if decimals:
            return real_np.round(a, decimals)

        def rnd(x):
            # to the nearest integer; which one is chosen for ties is left open
            if not isinstance(x, S):
                return real_np.round(x)
            vc = cur()
            key = ('round', x.e.get_id())
            if key not in vc.memo:
                k = vc.fresh_expr(z3.IntSort(), 'rnd')
                e = to_real(x.e)
                vc.fact(z3.ToReal(k) <= e + z3.RealVal('1/2'), z3.ToReal(k) >= e - z3.RealVal('1/2'))
                vc.memo[key] = (k, x.e)
            return S(z3.ToReal(vc.memo[key][0]))

        return self._elem(rnd, real_np.round, a)

    rint = around = round

    def exp(self, a):
        return self._elem(lambda x: uninterpreted('exp', x) if isinstance(x, S) else real_np.exp(x), real_np.exp, a)

    def isfinite(self, a):
        return self._elem(lambda x: True, real_np.isfinite, a)

    def isnan(self, a):
        return self._elem(lambda x: False, real_np.isnan, a)

    isinf = isnan

    def clip(self, a, low, high):
        return self.minimum(self.maximum(a, low), high)

    def logical_and(self, a, b):
        return self._elem(lambda x, y: core.And(x, y), real_np.logical_and, a, b)

    def logical_or(self, a, b):
        return self._elem(lambda x, y: core.Or(x, y), real_np.logical_or, a, b)

    def logical_not(self, a):
        return self._elem(lambda x: core.Not(x), real_np.logical_not, a)

    def where(self, cond, *args):
        if not args:
            if isinstance(cond, Arr):
                return (Arr([i for i, c in enumerate(cond.a) if c]), )
            return real_np.where(cond)
        a, b = args
        return self._elem(lambda c, x, y: ite(c, x, y), real_np.where, cond, a, b)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **kw):
        if not symbolic((a, b)):
            return real_np.isclose(a, b, rtol=rtol, atol=atol, **kw)
        return self._elem(lambda x, y: abs(x - y) <= atol + rtol * abs(y), None, a, b)

    def allclose(self, a, b, **kw):
        return self.all(self.isclose(a, b, **kw))

    # -- reductions
    def _l(self, x):
        return self.array(x) if isinstance(x, (list, tuple)) and symbolic(x) else x

    def all(self, x, axis=None):
        if hasattr(x, '_vc_all'):
            return x._vc_all()
        if isinstance(x, GV):
            return gv_all(x)
        x = self._l(x)
        if not symbolic(x):
            return real_np.all(x, axis=axis)
        return reduce_axis(x, axis, lambda items: core.And(*items))

    def any(self, x, axis=None):
        if isinstance(x, GV):
            return core.Not(gv_all(~x))
        x = self._l(x)
        if not symbolic(x):
            return real_np.any(x, axis=axis)
        return reduce_axis(x, axis, lambda items: core.Or(*items))

    def sum(self, x, axis=None, **kw):
        if hasattr(x, '_vc_sum'):
            return x._vc_sum()
        x = self._l(x)
        if not symbolic(x):
            return real_np.sum(x, axis=axis)
        if isinstance(x, GV):
            raise Unsupported('sum over components')
        return reduce_axis(x, axis, fold(lambda a, b: a + b, 0))

    def max(self, x, axis=None, **kw):
        if hasattr(x, '_vc_max'):
            return x._vc_max()
        x = self._l(x)
        if not symbolic(x):
            return real_np.max(x, axis=axis)
        if isinstance(x, GV):
            return gv_extreme(x, True)
        return reduce_axis(x, axis, fold(s_max))

    def min(self, x, axis=None, **kw):
        if hasattr(x, '_vc_min'):
            return x._vc_min()
        x = self._l(x)
        if not symbolic(x):
            return real_np.min(x, axis=axis)
        if isinstance(x, GV):
            return gv_extreme(x, False)
        return reduce_axis(x, axis, fold(s_min))

    amax, amin = max, min

    def mean(self, x, axis=None):
        return self.average(x, axis=axis)

    def average(self, x, axis=None):
        if hasattr(x, '_vc_average'):
            return x._vc_average(axis)
        x = self._l(x)
        if hasattr(x, '_vc_average'):
            return x._vc_average(axis)
        if not symbolic(x):
            return real_np.average(x, axis=axis)
        if isinstance(x, GV):
            raise Unsupported('average over components')
        n = x.a.size if axis is None else x.a.shape[axis]
        return self.sum(x, axis=axis) / n

    def var(self, x, axis=None, ddof=0):
        x = self._l(x)
        if axis is not None or isinstance(x, GV):
            raise Unsupported('variance')
        if hasattr(x, '_vc_var'):
            return x._vc_var(ddof)
        if not symbolic(x):
            return real_np.var(x, ddof=ddof)
        mean = self.average(x)
        vals = [(y - mean) * (y - mean) for y in x.a.reshape(-1)]
        res = vals[0]
        for y in vals[1:]:
            res = res + y
        cur().fact(to_real(lift(res)) >= 0)  # a sum of squares
        return res / (builtins.len(vals) - ddof)

    def cumsum(self, *a, **k):
        return self.__getattr__('cumsum')(*a, **k)

    def prod(self, x, axis=None):
        x = self._l(x)
        if not symbolic(x):
            return real_np.prod(x, axis=axis)
        return reduce_axis(x, axis, fold(lambda a, b: a * b, 1))

    def product(self, x, axis=None):
        return self.prod(x, axis=axis)

    def argsort(self, x, **kw):
        x = self._l(x)
        if not symbolic(x):
            return real_np.argsort(x, **kw)
        if isinstance(x, Arr) and x.a.ndim == 1:
            return sym_argsort(x)
        raise Unsupported('argsort')

    def sort(self, x, axis=-1, **kw):
        if not symbolic(x):
            return real_np.sort(x, axis=axis)
        x = self._l(x)
        if isinstance(x, Arr) and x.a.ndim == 1:
            return x[sym_argsort(x)]
        raise Unsupported('sort')

    def unique(self, x, axis=None, **kw):
        if not symbolic(x):
            return real_np.unique(x, axis=axis, **kw)
        x = self._l(x)
        if not isinstance(x, Arr) or kw:
            raise Unsupported('unique')
        if x.a.ndim == 1 or axis is None:
            rows = [(y, ) for y in x.a.reshape(-1)]
        elif x.a.ndim == 2 and axis == 0:
            rows = [tuple(r) for r in x.a]
        else:
            raise Unsupported('unique')
        res = []
        for row in rows:
            new = True
            for i, other in enumerate(res):
                diff = [j for j, (u, v) in enumerate(zip(row, other)) if not bool(u == v)][:1]
                if not diff:
                    new = False
                    break
                if bool(row[diff[0]] < other[diff[0]]):
                    res.insert(i, row)
                    new = False
                    break
            if new:
                res.append(row)
        if x.a.ndim == 1 or axis is None:
            return Arr([r[0] for r in res])
        return Arr([list(r) for r in res])

    def argmin(self, x, axis=None):
        x = self._l(x)
        if not symbolic(x):
            return real_np.argmin(x, axis=axis)
        return arg_extreme(x, lambda a, b: a <= b)

    def argmax(self, x, axis=None):
        x = self._l(x)
        if not symbolic(x):
            return real_np.argmax(x, axis=axis)
        return arg_extreme(x, lambda a, b: a >= b)

    def take(self, x, ind, axis=None):
        if not symbolic((x, ind)):
            return real_np.take(x, ind, axis)
        if axis not in (0, None) and not (isinstance(x, Arr) and x.a.ndim == 1):
            raise Unsupported('take')
        x = self._l(x)
        return x[ind]

    def ravel(self, x):
        return self._l(x).ravel() if symbolic(x) else real_np.ravel(x)

    def dot(self, a, b):
        if not symbolic((a, b)):
            return real_np.dot(a, b)
        a, b = raw(a), raw(b)
        if a.ndim == 1 and b.ndim == 1:
            return fold(lambda x, y: x + y, 0)([x * y for x, y in zip(a, b)])
        if a.ndim == 2 and b.ndim == 1:
            return Arr([self.dot(Arr(r), Arr(b)) for r in a])
        if a.ndim == 2 and b.ndim == 2:
            return Arr([[self.dot(Arr(r), Arr(c)) for c in b.T] for r in a])
        raise Unsupported('dot')

    matmul = dot

    def stack(self, xs, axis=0):
        xs = list(xs)
        if not symbolic(xs):
            return real_np.stack(xs, axis=axis)
        return Arr(real_np.stack([raw(x) for x in xs], axis=axis))

    def vstack(self, xs):
        xs = list(xs)
        if not symbolic(xs):
            return real_np.vstack(xs)
        return Arr(real_np.vstack([raw(x) for x in xs]))

    def concatenate(self, xs, axis=0):
        xs = list(xs)
        if not symbolic(xs):
            return real_np.concatenate(xs, axis=axis)
        return Arr(real_np.concatenate([raw(x) for x in xs], axis=axis))

    def flatnonzero(self, x):
        if hasattr(x, '_vc_flatnonzero'):
            return x._vc_flatnonzero()
        if not symbolic(x):
            return real_np.flatnonzero(x)
        return [i for i, c in enumerate(self._l(x).a) if c]

    def shape(self, x):
        return self._l(x).shape if symbolic(x) else real_np.shape(x)

    def ndim(self, x):
        return self._l(x).ndim if symbolic(x) else real_np.ndim(x)

    def size(self, x):
        return self._l(x).a.size if symbolic(x) else real_np.size(x)

    def array_equal(self, a, b):
        if not symbolic((a, b)):
            return real_np.array_equal(a, b)
        return self.all(self._elem(lambda x, y: x == y, None, a, b))

    class _Add:
        def __call__(self, a, b):
            return NP.add2(a, b)

        def reduce(self, x, axis=0):
            return NP.sum(x, axis=axis)

    add = _Add()

    class _Linalg:
        def norm(self, x, axis=None, **kw):
            return LA.norm(x, axis=axis, **kw)

        def __getattr__(self, name):
            raise Unsupported('numpy.linalg.{}'.format(name))

    linalg = _Linalg()


# functions which only move entries around
STRUCTURAL = {'meshgrid', 'tile', 'repeat', 'reshape', 'hstack', 'column_stack', 'row_stack', 'dstack', 'diag', 'diagflat', 'moveaxis', 'transpose', 'expand_dims', 'squeeze', 'broadcast_to',
              'roll', 'flip', 'insert', 'delete', 'append', 'swapaxes', 'atleast_2d', 'fill_diagonal', 'split', 'rollaxis'}


def entries_only(x):
    if isinstance(x, (list, tuple)):
        return all(entries_only(y) for y in x)
    if isinstance(x, dict):
        return all(entries_only(y) for y in x.values())
    return isinstance(x, (Arr, S)) or not symbolic(x)


def plain_objects(x):
    if isinstance(x, (list, tuple)):
        return type(x)(plain_objects(y) for y in x)
    if isinstance(x, dict):
        return {k: plain_objects(y) for k, y in x.items()}
    if isinstance(x, Arr):
        return x.a
    return x


def trig(x):
    """
    (cos, sin) of an angle: of norm one, different for different angles in
    one turn [0, 2 pi).
    """
    vc = cur()
    vc.trusted.add('facts about cos and sin: on the unit circle, and different for different angles in [0, 2 pi)')
    e = to_real(x.e)
    key = ('trig', e.get_id())
    if key not in vc.memo:
        c, s = vc.fresh_expr(z3.RealSort(), 'cos'), vc.fresh_expr(z3.RealSort(), 'sin')
        vc.fact(core.prod(c, c) + core.prod(s, s) == 1)
        turn = core.real_of(2 * real_np.pi)
        for other in [v for k, v in vc.memo.items() if k[0] == 'trig']:
            oc, os_, oe = other
            vc.fact(z3.Implies(z3.And(e >= 0, e < turn, oe >= 0, oe < turn, e != oe), z3.Or(c != oc, s != os_)))
        vc.memo[key] = (c, s, e)
    c, s, _ = vc.memo[key]
    return S(c), S(s)


class SymRows:
    """Array with an unknown number of rows of known shape, filled in a loop."""
    _vc_symbolic = True

    def __init__(self, shape, val):
        shape = tuple(shape) if isinstance(shape, (list, tuple)) else (shape, )
        if not isinstance(shape[0], S) or symbolic(shape[1:]):
            raise Unsupported('array of symbolic shape')
        self.n = shape[0]
        self.row_shape = shape[1:]
        self.val = val
        self.rows = []  # (index, row) written

    @property
    def shape(self):
        return (self.n, ) + self.row_shape

    @property
    def ndim(self):
        return 1 + len(self.row_shape)

    def _vc_len(self):
        return self.n

    def __setitem__(self, key, val):
        key = key if isinstance(key, tuple) else (key, )
        if any(not (k is Ellipsis or k == slice(None)) for k in key[1:]):
            raise Unsupported('setting a part of a row')
        if not isinstance(key[0], (S, int)):
            raise Unsupported('setting several rows')
        cur().prove('index within the array', z3.And(lift(key[0]) >= 0, lift(key[0]) < lift(self.n)))
        row = raw(val)
        self.rows.append((key[0], Arr(real_np.broadcast_to(row, self.row_shape).copy())))

    def __getitem__(self, key):
        raise Unsupported('reading rows')


class VGrid:
    """
    Array of lists whose shape is symbolic. ``base`` gives the content of a
    cell before any append (a sequence of unknown length), or there is none.
    """
    _vc_symbolic = True

    def __init__(self, shape):
        self.shape = tuple(shape)
        self.cells = {}
        self.default = None
        self.base = None
        cur().grids.append(self)

    def fill(self, f):
        self.default = f

    def index(self, key):
        if not isinstance(key, tuple) or len(key) != len(self.shape):
            raise Unsupported('cell index')
        res = []
        for i, n in zip(key, self.shape):
            i = i if isinstance(i, S) else S(lift(i))
            n = n if isinstance(n, S) else S(lift(n))
            if not (i >= 0) & (i < n):
                if (i < 0) & (i >= -n):
                    i = i + n
                else:
                    raise IndexError('index out of bounds')
            res.append(i)
        return tuple(res)

    def __getitem__(self, key):
        if self.default is None:
            raise Unsupported('cells which are not initialised')
        key = self.index(key)
        if key not in self.cells:
            self.cells[key] = Cell(self, key) if self.base is not None else self.default(None)
        return self.cells[key]

    def __setitem__(self, key, val):
        if key is Ellipsis:
            raise Unsupported('filling a grid')
        self.cells[self.index(key)] = val


class Cell:
    """Cell with unknown content, to which values can be appended."""
    _vc_symbolic = True

    def __init__(self, grid, key):
        self.seq = grid.base(key)
        self.new = []

    def append(self, val):
        self.new.append(val)

    def _vc_spread(self):
        from .seq import Spread
        return [Spread(self.seq)] + self.new

    _vc_iter = _vc_spread

    def __iter__(self):
        return builtins.iter(self._vc_spread())


def gv_extreme(x, largest):
    vc = cur()
    m = vc.fresh_expr(z3.RealSort(), 'extreme')
    j = vc.index('w')
    vc.fact(m == to_real(lift(x.at(j))))
    if largest:
        vc.forall(lambda i: to_real(lift(x.at(i))) <= m)
    else:
        vc.forall(lambda i: to_real(lift(x.at(i))) >= m)
    return S(m)


def arg_extreme(x, better):
    a = x.a.reshape(-1)
    best, res = a[0], 0
    for k in range(1, len(a)):
        c = better(best, a[k])
        c = c if isinstance(c, S) else builtins.bool(c)
        best, res = ite(c, best, a[k]), ite(c, res, k)
    return res


def sym_argsort(x):
    """
    argsort: some permutation which sorts (numpy does not promise which one
    for equal entries). One path for each permutation.
    """
    vc = cur()
    n = len(x.a)
    if n > 4:
        perm = Perm([vc.int('perm', low=0, high=n - 1) for _ in range(n)])
        vc.fact(z3.Distinct(*[lift(i) for i in perm.a]))
        vals = PermIndex(perm.a).select(x)
        for a, b in zip(vals.a, vals.a[1:]):
            vc.fact(lift(a) <= lift(b))
        return perm
    perm = []
    left = list(range(n))
    for _ in range(n - 1):
        k = left[vc.pick(len(left), 'perm')]
        perm.append(k)
        left.remove(k)
    perm.extend(left)
    for a, b in zip(perm[:-1], perm[1:]):
        cond = x.a[a] <= x.a[b]
        vc.assume(cond if isinstance(cond, S) else builtins.bool(cond))
    if vc.check() == z3.unsat:
        raise PathEnd()
    return real_np.array(perm)


class _LA:
    """scipy.linalg"""

    def norm(self, x, axis=None, **kw):
        if kw.get('keepdims') or kw.get('ord') is not None:
            raise Unsupported('norm options')
        x = NP._l(x)
        if isinstance(x, GV):
            return gv_norm(x)
        if not symbolic(x):
            return real_la.norm(x, axis=axis)
        if hasattr(x, '_vc_norm'):
            return x._vc_norm(axis)
        return NP.sqrt(NP.sum(NP.square(x), axis=axis))

    def qr(self, mat, **kw):
        if not symbolic(mat):
            return real_la.qr(mat.a.astype(float) if isinstance(mat, Arr) else mat, **kw)
        a = raw(mat)
        if kw or a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise Unsupported('qr options')
        vc = cur()
        vc.trusted.add('contract of scipy.linalg.qr: an orthogonal matrix and an upper triangular one whose product is the matrix')
        n = len(a)
        q = [[vc.fresh_expr(z3.RealSort(), 'q') for _ in range(n)] for _ in range(n)]
        r = [[vc.fresh_expr(z3.RealSort(), 'r') if j >= i else z3.RealVal(0) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i, n):
                vc.fact(z3.Sum([core.prod(q[k][i], q[k][j]) for k in range(n)]) == int(i == j))
        for i in range(n):
            for j in range(n):
                vc.fact(z3.Sum([core.prod(q[i][k], r[k][j]) for k in range(j + 1)]) == to_real(lift(a[i, j])))
        res = Arr([[S(x) for x in row] for row in q])
        vc.memo[('qr', builtins.len(vc.memo))] = (res.copy(), Arr([[S(x) for x in row] for row in r]), mat)
        return res, Arr([[S(x) for x in row] for row in r])

    def svd(self, mat, full_matrices=True, compute_uv=True, **kw):
        if not symbolic(mat):
            return real_la.svd(mat.a.astype(float) if isinstance(mat, Arr) else mat, full_matrices=full_matrices, compute_uv=compute_uv, **kw)
        a = raw(mat)
        if compute_uv or kw or a.ndim != 2:
            raise Unsupported('svd options')
        vc = cur()
        vc.trusted.add('contract of scipy.linalg.svd: the product of the squared singular values is the determinant of the Gram matrix, they are not negative and sorted')
        rows = [list(r) for r in (a if a.shape[0] <= a.shape[1] else a.T)]
        key = ('svd', ) + tuple(core.to_real(lift(x)).get_id() for r in rows for x in r)
        if key in vc.memo:
            return Arr([S(x) for x in vc.memo[key][0]])
        n = builtins.len(rows)
        gram = [[to_real(lift(builtins.sum((x * y for x, y in zip(p, q)), 0.))) for q in rows] for p in rows]

        def det(m):
            if builtins.len(m) == 1:
                return m[0][0]
            return builtins.sum((z3.RealVal((-1)**j) * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(builtins.len(m))), z3.RealVal(0))

        vals = [vc.fresh_expr(z3.RealSort(), 'sv') for _ in range(n)]
        for x, y in zip(vals, vals[1:]):
            vc.fact(x >= y)
        vc.fact(vals[-1] >= 0)
        total = z3.RealVal(1)
        for x in vals:
            total = total * x
        gramdet = det(gram)
        vc.fact(total >= 0, total * total == gramdet)
        vc.memo[key] = (vals, rows, gramdet)
        return Arr([S(x) for x in vals])

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        fun = getattr(real_la, name)

        def guarded(*args, **kwargs):
            if symbolic(args) or symbolic(kwargs):
                raise Unsupported('scipy.linalg.{}'.format(name))
            return fun(*args, **kwargs)

        return guarded


NP = _NP()
LA = _LA()


# ------------------------------------------------------------------ builtins
def b_len(x):
    if hasattr(x, '_vc_len'):
        return x._vc_len()
    if isinstance(x, builtins.list):
        from .seq import Spread, Mixed
        if any(isinstance(y, Spread) for y in x):
            return Mixed(x).size
        if any(getattr(y, '_vc_many', False) for y in x):
            raise Unsupported('length of a list of which only the last entries are known')
    return builtins.len(x)


def b_any(x):
    if hasattr(x, '_vc_any'):
        return x._vc_any()
    from .seq import Spread
    for y in x:
        if isinstance(y, Spread):
            y = y.seq._vc_any()
        if y:
            return True
    return False


def b_all(x):
    if hasattr(x, '_vc_all'):
        return x._vc_all()
    from .seq import Spread
    for y in x:
        if isinstance(y, Spread):
            y = y.seq._vc_all()
        if not y:
            return False
    return True


def b_sum(x, start=0):
    if hasattr(x, '_vc_sum'):
        return x._vc_sum() + start
    res = start
    for y in x:
        res = res + y
    return res


def _b_extreme(real, op, hook):

    def f(*args, key=None, **kw):
        if builtins.len(args) == 1 and hasattr(args[0], hook):
            return getattr(args[0], hook)(key=key, **kw)
        items = list(args[0]) if builtins.len(args) == 1 else list(args)
        if not symbolic(items):
            return real(items, key=key, **kw)
        if not items:
            if 'default' in kw:
                return kw['default']
            raise ValueError('empty sequence')
        if key is None:
            return fold(op)(items)
        best = items[0]
        for y in items[1:]:
            k1, k2 = key(best), key(y)
            better = (k2 < k1) if real is builtins.min else (k2 > k1)
            if better:
                best = y
        return best

    return f


def b_sorted(x, key=None, reverse=False):
    if hasattr(x, '_vc_sorted'):
        return x._vc_sorted(key, reverse)
    items = list(x)
    if not symbolic(items) or builtins.len(items) < 2:
        return builtins.sorted(items, key=key, reverse=reverse)
    if all(isinstance(y, S) for y in items) and key is None and not reverse and builtins.len(items) == 2:
        if cur().entails(lift(items[0] <= items[1]), timeout=150):
            return items
        return [s_min(items[0], items[1]), s_max(items[0], items[1])]
    # insertion sort: splits paths
    res = []
    keyf = key or (lambda y: y)
    for y in items:
        pos = builtins.len(res)
        while pos > 0:
            less = keyf(y) < keyf(res[pos - 1]) if not reverse else keyf(res[pos - 1]) < keyf(y)
            if not less:
                break
            pos -= 1
        res.insert(pos, y)
    return res


def b_isinstance(x, types_):
    ts = types_ if isinstance(types_, tuple) else (types_, )
    ts = tuple(TYPE_MAP.get(t, t) if isinstance(t, Hashable) else t for t in ts)
    if hasattr(x, '_vc_isinstance'):
        res = x._vc_isinstance(ts)
        if res is not None:
            return res
    if isinstance(x, S):
        for t in ts:
            if t is numbers.Integral or t is int:
                if x.is_int:
                    return True
            elif t in (float, numbers.Real, numbers.Number):
                if not x.is_bool:
                    return True
            elif t is bool and x.is_bool:
                return True
        return builtins.isinstance(x, tuple(t for t in ts if isinstance(t, type)))
    if isinstance(x, (Arr, GV)) and real_np.ndarray in ts:
        return True
    return builtins.isinstance(x, ts)


from collections.abc import Hashable


def b_list(*args):
    if args and hasattr(args[0], '_vc_list'):
        return args[0]._vc_list()
    return builtins.list(*args)


def b_tuple(*args):
    if args and hasattr(args[0], '_vc_tuple'):
        return args[0]._vc_tuple()
    return builtins.tuple(*args)


def b_set(*args):
    if args and hasattr(args[0], '_vc_set'):
        return args[0]._vc_set()
    return builtins.set(*args)


def b_float(x=0.):
    if isinstance(x, S):
        return S(to_real(x.e))
    return builtins.float(x)


def b_int(x=0, *args):
    if isinstance(x, S):
        return core.floor_trunc(x) if not x.is_int else x
    return builtins.int(x, *args)


def b_bool(x=False):
    if isinstance(x, S):
        return S(truth(x))
    return builtins.bool(x)


def b_range(*args):
    if any(isinstance(a, S) for a in args):
        if not all(isinstance(a, int) or (isinstance(a, S) and z3.is_int_value(z3.simplify(a.e))) for a in args):
            from .seq import sym_range
            return sym_range(*args)
        args = [a if isinstance(a, int) else z3.simplify(a.e).as_long() for a in args]
    return builtins.range(*args)


def _pass(hook, real):

    def f(x, *args, **kw):
        if hasattr(x, hook):
            return getattr(x, hook)(*args, **kw)
        return real(x, *args, **kw)

    return f


def b_zip(*args, **kw):
    for a in args:
        if hasattr(a, '_vc_zip'):
            return a._vc_zip(args)
    return builtins.zip(*args, **kw)


def b_map(f, *args):
    if len(args) == 1 and hasattr(args[0], '_vc_map'):
        return args[0]._vc_map(f)
    return builtins.map(f, *args)


def b_filter(f, x):
    if hasattr(x, '_vc_filter'):
        return x._vc_filter(f)
    return builtins.filter(f, x)


class _TypeShim(type):
    def __instancecheck__(cls, obj):
        return b_isinstance(obj, cls._real)

    def __call__(cls, *args, **kw):
        return cls._fun(*args, **kw)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __eq__(cls, other):
        return other is cls or other is cls._real

    def __hash__(cls):
        return hash(cls._real)


TYPE_MAP = {}


def type_shim(name, real, fun, **extra):
    cls = _TypeShim.__new__(_TypeShim, name, (), dict(_real=real, _fun=staticmethod(fun), **extra))
    TYPE_MAP[cls] = real
    return cls


BUILTINS = dict(
    len=b_len, any=b_any, all=b_all, sum=b_sum, min=_b_extreme(builtins.min, s_min, '_vc_min'), max=_b_extreme(builtins.max, s_max, '_vc_max'), sorted=b_sorted,
    isinstance=b_isinstance, range=b_range, enumerate=_pass('_vc_enumerate', builtins.enumerate), zip=b_zip, map=b_map, filter=b_filter, iter=_pass('_vc_iter', builtins.iter),
    reversed=_pass('_vc_reversed', builtins.reversed),
    next=_pass('_vc_next', builtins.next), abs=abs, list=b_list, tuple=b_tuple, set=b_set, float=b_float, int=b_int, bool=b_bool
)
# type names which are also used in isinstance or as dtype
for _n in ('list', 'tuple', 'set', 'float', 'int', 'bool'):
    BUILTINS[_n] = type_shim(_n, getattr(builtins, _n), BUILTINS[_n])


def real_type(t):
    return TYPE_MAP.get(t, t) if isinstance(t, Hashable) else t


# --------------------------------------------------------------------- hooks
class Inactive:
    active = False

    def head(self, _locals):
        return True

    def tail(self, _locals):
        pass

    def items(self, seq):
        return builtins.iter(seq)


INACTIVE = Inactive()


class LoopRun:
    """A loop which is cut: an arbitrary iteration, or the exit."""
    active = True

    def __init__(self, lid, loc, names, contract, seq):
        self.lid, self.contract, self.seq = lid, contract, seq
        self.vc = cur()
        self.first = True
        self.last_locals = loc
        self.values = contract.enter(self.vc, dict(loc), names, seq)

    def has(self, name):
        return name in self.values

    def get(self, name):
        return self.values[name]

    def head(self, loc):
        if self.first:
            self.first = False
            return True
        self.contract.preserved(self.vc, dict(loc))
        raise PathEnd()

    def tail(self, loc):
        self.last_locals = loc

    def items(self, seq):
        it = self.contract.elements(self.vc, seq)
        for x in it:
            yield x
            self.contract.preserved(self.vc, dict(self.last_locals))
            if not getattr(self.contract, 'sequential', False):
                raise PathEnd()


def spread_comp(elt, seq, cond):
    from .seq import Spread
    for x in seq:
        if isinstance(x, Spread):
            s = x.seq if cond is None else x.seq.filter(cond)
            yield Spread(s.map(elt))
        elif cond is None or cond(x):
            yield elt(x)


class Hooks:
    """What the rewritten code calls."""

    def loop(self, lid, loc, names, seq, targets=(), leaves=True):
        vc = cur()
        contract = None
        for key, val in vc.loops.items():
            found = callable(key) and key(lid, loc, names, seq)
            if found or key == lid:
                contract = found if found and val is None else val
        if contract is None and seq is not None and hasattr(seq, '_vc_loop'):
            contract = seq._vc_loop(lid, loc, names)
        if contract is None:
            return INACTIVE
        contract.targets = targets
        contract.leaves = leaves
        return LoopRun(lid, loc, names, contract, seq)

    def comp(self, kind, elt, seq, cond):
        if hasattr(seq, '_vc_comp'):
            return seq._vc_comp(kind, elt, cond)
        gen = spread_comp(elt, seq, cond)
        if kind == 'gen':
            return gen
        if kind == 'list':
            return builtins.list(gen)
        if kind == 'set':
            return builtins.set(gen)
        return builtins.dict(gen)

    def same_object(self, a, b):
        """a is b"""
        if a is b:
            return True
        if a is None or b is None:
            return False
        known = cur().elements
        if id(a) in known or id(b) in known or isinstance(a, S) or isinstance(b, S):
            raise Unsupported('identity of an entry of a sequence of unknown length')
        return False

    def display(self, *parts):
        """[*a, b, ...]"""
        res = []
        for starred, x in parts:
            if not starred:
                x = [x]
            elif hasattr(x, '_vc_list'):
                x = x._vc_list()
            else:
                x = builtins.list(x)
            res = x if isinstance(res, builtins.list) and not res else res + x
        return res

    def spread(self, seq):
        if hasattr(seq, '_vc_spread'):
            return seq._vc_spread()
        return seq


# ------------------------------------------------------------------- modules
def module(name, **attrs):
    mod = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(mod, k, v)
    return mod


def identity(x=None, *a, **k):
    return x


def export(obj):
    """fsc.export.export: adds the name to __all__ of the module."""
    import sys
    names = sys._getframe(1).f_globals.setdefault('__all__', [])
    if obj.__name__ not in names:
        names.append(obj.__name__)
    return obj


class HDF5Enabled:
    pass


class SimpleHDF5Mapping:
    HDF5_ATTRIBUTES = ()


class PassThrough:
    """Logger and similar: calls have no effect."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Itertools(types.ModuleType):
    def __getattr__(self, name):
        return getattr(itertools, name)

    def product(self, *args, **kw):
        from .seq import SymSeq, Product
        if any(isinstance(a, SymSeq) for a in args):
            if kw:
                raise Unsupported('product options')
            return Product([a if isinstance(a, SymSeq) else SymSeq.of(list(a)) for a in args])
        return itertools.product(*args, **kw)


MODULES = {
    'itertools': Itertools('itertools'),
    'numpy': NP,
    'scipy.linalg': LA,
    'scipy': module('scipy', linalg=LA),
    'fsc': module('fsc'),
    'fsc.export': module('fsc.export', export=export),
    'fsc.hdf5_io': module('fsc.hdf5_io', subscribe_hdf5=lambda *a, **k: identity, HDF5Enabled=HDF5Enabled, SimpleHDF5Mapping=SimpleHDF5Mapping,
                          to_hdf5=None, from_hdf5=None, save=None, load=None),
    'nodefinder.search._logging': module('nodefinder.search._logging', SEARCH_LOGGER=PassThrough()),
    'nodefinder.identify._logging': module('nodefinder.identify._logging', IDENTIFY_LOGGER=PassThrough()),
}
