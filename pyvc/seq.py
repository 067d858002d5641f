"""Finite sequences of unknown length."""
import builtins

import numpy as np
import z3

from . import core, shims
from .core import S, Unsupported, PathEnd, cur, lift, truth, to_real


class SymSeq:
    """
    Sequence of unknown length n; ``at(k)`` is the element with (z3) index k.
    ``cond(k)`` selects a subsequence (filtered sequence), in the same order.
    """
    _vc_symbolic = True

    def __init__(self, n, fct, cond=None, name='seq'):
        self.n = n  # z3 Int expression, or None if filtered
        self.fct = fct
        self.cond = cond
        self.cache = {}
        self.name = name
        self._count = None
        self.origin = self
        self.cell = None  # used by contracts/cells.py
        self.counted = None  # used by contracts/control.py
        self.taken = False

    @classmethod
    def new(cls, fct, name='seq', min_len=0):
        vc = cur()
        n = vc.fresh_expr(z3.IntSort(), 'len_' + name)
        vc.fact(n >= min_len)
        return cls(n, fct, name=name)

    @classmethod
    def of(cls, items):
        """Known elements."""
        arr = shims.Arr(items)
        return cls(z3.IntVal(len(items)), lambda k: shims.SymIndex(S(k)).select(arr))

    def at(self, k):
        k = lift(k) if not z3.is_expr(k) else k
        key = k.get_id()
        if key not in self.cache:
            res = self.fct(k)
            self.cache[key] = (res, k)
            if res is not None and not isinstance(res, (bool, int, float, str)):
                cur().elements[id(res)] = res
        return self.cache[key][0]

    def member(self, k):
        """Is k the index of an element?"""
        res = z3.And(k >= 0, k < self.n)
        if self.cond is not None:
            res = z3.And(res, self.cond(k))
        return res

    def some(self, name='k'):
        """An arbitrary index (not yet known to be one of an element)."""
        k = cur().fresh_expr(z3.IntSort(), name)
        cur().witnesses.append(k)
        return k

    # -- hooks
    def _vc_len(self):
        if self.cond is None:
            return S(self.n)
        if self.origin.counted is not None:
            return S(self.origin.counted(self, lambda k: S(z3.IntVal(1))))
        vc = cur()
        if self._count is None:
            c = vc.fresh_expr(z3.IntSort(), 'count_' + self.name)
            k = self.some()
            vc.fact(c >= 0, c <= self.n, z3.Implies(c > 0, self.member(k)))
            self.for_all(lambda j: c > 0)
            self._count = c
            self._wit = k
        return S(self._count)

    def __len__(self):
        e = z3.simplify(lift(self._vc_len()))
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported('len() of a sequence of unknown length')

    def __bool__(self):
        return builtins.bool(self._vc_len() > 0)

    def __iter__(self):
        raise Unsupported('iteration over a sequence of unknown length')

    def __getitem__(self, key):
        if isinstance(key, (int, S)) and self.cond is None:
            k = lift(key)
            if isinstance(key, int) and key < 0:
                k = self.n + key
            vc = cur()
            if not vc.entails(z3.And(k >= 0, k < self.n)):
                vc.prove('index within the sequence', z3.And(k >= 0, k < self.n))
                vc.fact(k >= 0, k < self.n)
            return self.at(k)
        if isinstance(key, slice) and self.cond is None:
            return self._slice(key)
        raise Unsupported('element {} of a sequence of unknown length'.format(key))

    def _slice(self, key):
        if key.step not in (None, 1):
            raise Unsupported('slice with a step')
        n = self.n
        lo = z3.IntVal(0) if key.start is None else lift(key.start)
        hi = n if key.stop is None else lift(key.stop)
        neg = lambda e: z3.If(e < 0, z3.If(n + e < 0, z3.IntVal(0), n + e), z3.If(e > n, n, e))
        lo, hi = z3.simplify(neg(lo)), z3.simplify(neg(hi))
        ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        base = self
        return SymSeq(z3.simplify(ln), lambda k: base.at(z3.simplify(k + lo)), name=self.name)

    def map(self, f):
        base = self
        return SymSeq(self.n, lambda k: f(base.at(k)), cond=self.cond, name=self.name)._from(self)

    def _from(self, other):
        self.origin = other.origin
        self.cell = other.cell
        return self

    def filter(self, f):
        base = self
        old = self.cond

        def cond(k):
            c = base_truth(f(base.at(k)))
            return z3.And(old(k), c) if old is not None else c

        return SymSeq(self.n, self.fct, cond=cond, name=self.name)._share(self)

    def _share(self, other):
        self.cache = other.cache
        return self._from(other)

    def _scaled(self, op, other):
        if not isinstance(other, (int, float, S)):
            return NotImplemented
        return self.map(lambda x: op(x, other))

    def __mul__(self, o):
        return self._scaled(lambda a, b: a * b, o)

    def __rmul__(self, o):
        return self._scaled(lambda a, b: b * a, o)

    def __truediv__(self, o):
        return self._scaled(lambda a, b: a / b, o)

    def __add__(self, o):
        return self._scaled(lambda a, b: a + b, o)

    def __radd__(self, o):
        return self._scaled(lambda a, b: b + a, o)

    def __sub__(self, o):
        return self._scaled(lambda a, b: a - b, o)

    def __lt__(self, o):
        return self._scaled(lambda a, b: a < b, o)

    def __le__(self, o):
        return self._scaled(lambda a, b: a <= b, o)

    def __gt__(self, o):
        return self._scaled(lambda a, b: a > b, o)

    def __ge__(self, o):
        return self._scaled(lambda a, b: a >= b, o)

    def _in_place(self, o):
        raise Unsupported('a sequence of unknown length is changed in place')

    __iadd__ = __isub__ = __imul__ = __itruediv__ = __ifloordiv__ = __imod__ = __ipow__ = __iand__ = __ior__ = _in_place

    def _vc_flatnonzero(self):
        if self.cond is not None:
            raise Unsupported('positions in a filtered sequence')
        base = self
        return SymSeq(self.n, lambda k: S(k), cond=lambda k: base_truth(base.at(k)), name=self.name)

    def _vc_comp(self, kind, elt, cond):
        res = self.filter(cond) if cond is not None else self
        if kind in ('list', 'gen'):
            return res.map(elt)
        raise Unsupported('{} comprehension over a sequence of unknown length'.format(kind))

    def _vc_map(self, f):
        return self.map(f)

    def _vc_filter(self, f):
        return self.filter(f if f is not None else (lambda x: x))

    def _vc_list(self):
        return self

    _vc_tuple = _vc_iter = _vc_list

    def _vc_spread(self):
        return [Spread(self)]

    def _vc_enumerate(self, start=0):
        if self.cond is not None:
            raise Unsupported('enumerate of a filtered sequence')
        base = self
        return SymSeq(self.n, lambda k: (S(z3.simplify(k + start)), base.at(k)), name=self.name)

    def _vc_zip(self, args):
        seqs = []
        n = None
        for a in args:
            if isinstance(a, SymSeq) and a.cond is None:
                n = a.n if n is None or z3.eq(n, a.n) else z3.If(n <= a.n, n, a.n)
                seqs.append(a)
            else:
                raise Unsupported('zip of different kinds of sequences')
        return SymSeq(z3.simplify(n), lambda k: tuple(a.at(k) for a in seqs), name=self.name)

    def _vc_next(self, *default):
        """The first element (once)."""
        vc = cur()
        if self.taken:
            raise Unsupported('the second element of an iterator over a sequence of unknown length')
        self.taken = True
        if not self:
            if not default:
                raise StopIteration
            return default[0]
        k = vc.fresh_expr(z3.IntSort(), 'first')
        vc.fact(self.member(k))
        vc.witnesses.append(k)
        self.for_all(lambda j: j >= k)
        self.instantiate(k)
        return self.at(k)

    def _vc_any(self):
        """∃ element: it is true"""
        vc = cur()
        b = vc.fresh_expr(z3.BoolSort(), 'any')
        w = vc.fresh_expr(z3.IntSort(), 'w_any')
        vc.witnesses.append(w)
        vc.fact(z3.Implies(b, z3.And(self.member(w), base_truth(self.at(w)))))
        self.for_all(lambda k: z3.Implies(base_truth(self.at(k)), b))
        self.instantiate(w)
        return S(b)

    def _vc_all(self):
        return core.Not(self.map(lambda x: core.Not(x))._vc_any())

    def for_all(self, fact):
        """Assume fact(k) for the indices of all elements (see vc.seq_index)."""
        vc = cur()
        inst = vc.memo.setdefault(('seqidx', id(self.root())), ([], [], self.root()))
        inst[0].append((self, fact))
        for k in list(inst[1]):
            vc.fact(z3.Implies(self.member(k), fact(k)))

    def root(self):
        return self.origin

    def _vc_sum(self):
        return seq_sum(self)

    def _vc_average(self, axis):
        if axis not in (0, None):
            raise Unsupported('axis')
        return seq_sum(self) / self._vc_len()

    def _vc_array(self, dtype=None):
        if dtype is None or dtype is float:
            return self

        def convert(x):
            if isinstance(x, (tuple, list)):
                x = shims.Arr(list(x))
            return x.astype(dtype)

        return self.map(convert)

    def _vc_min(self, key=None, **kw):
        return self._extreme(False, key, kw)

    def _vc_max(self, key=None, **kw):
        return self._extreme(True, key, kw)

    def _extreme(self, largest, key, kw):
        vc = cur()
        if key is not None:
            # one of the elements; which one is not modelled
            if not self:
                if 'default' in kw:
                    return kw['default']
                raise ValueError('empty sequence')
            vc.coupled = vc.coupled or 'extremum by a key'
            w = self.some()
            vc.fact(self.member(w))
            self.instantiate(w)
            key(self.at(w))
            return self.at(w)
        if 'default' in kw:
            if not self:
                return kw['default']
        elif not vc.entails(lift(self._vc_len()) > 0):
            raise Unsupported('extremum of a sequence which may be empty')
        m = vc.real('extreme')
        w = self.some()
        vc.fact(self.member(w), to_real(lift(self.at(w))) == m.e)
        self.for_all(lambda k: to_real(lift(self.at(k))) <= m.e if largest else to_real(lift(self.at(k))) >= m.e)
        return m

    def index(self, name='k'):
        """An arbitrary element: its index (a fact that it is one is added)."""
        vc = cur()
        k = vc.fresh_expr(z3.IntSort(), name)
        vc.fact(self.member(k))
        self.instantiate(k)
        return k

    def instantiate(self, k):
        """Use the facts known for all elements for index k."""
        vc = cur()
        inst = vc.memo.setdefault(('seqidx', id(self.root())), ([], [], self.root()))
        if any(z3.eq(k, x) for x in inst[1]):
            return
        inst[1].append(k)
        for seq, fact in list(inst[0]):
            vc.fact(z3.Implies(seq.member(k), fact(k)))


def base_truth(x):
    if isinstance(x, S):
        return truth(x)
    return z3.BoolVal(builtins.bool(x))


class Spread:
    """The elements of a sequence of unknown length, inside a concrete one."""
    _vc_symbolic = True

    def __init__(self, seq):
        self.seq = seq


class Mixed:
    """Array of values, some of them given by sequences of unknown length."""
    _vc_symbolic = True

    def __init__(self, items):
        self.items = items

    @property
    def size(self):
        res = S(z3.IntVal(0))
        for x in self.items:
            res = res + (x.seq._vc_len() if isinstance(x, Spread) else 1)
        return res

    _vc_len = size.fget

    def statistics(self):
        """
        Mean and variance: unknown numbers of which only this is known: some
        value is not above the mean, some is not below, and the variance is not
        negative. Equal for the same values.
        """
        vc = cur()
        key = ('statistics', ) + tuple(id(x.seq) if isinstance(x, Spread) else lift(x).get_id() for x in self.items)
        if key not in vc.memo:
            vc.trusted.add('facts about the mean and the variance: some value is not above the mean, some is not below, the variance is not negative')
            mean, var = vc.real('mean'), vc.real('var')
            vc.fact(var.e >= 0)
            for op in (lambda v: v <= mean.e, lambda v: v >= mean.e):
                alts = []
                for x in self.items:
                    if isinstance(x, Spread):
                        k = vc.fresh_expr(z3.IntSort(), 'w')
                        x.seq.instantiate(k)
                        alts.append(z3.And(x.seq.member(k), op(to_real(lift(x.seq.at(k))))))
                    else:
                        alts.append(op(to_real(lift(x))))
                vc.fact(z3.Or(alts))
            vc.memo[key] = (mean, var, self.items)
        return vc.memo[key]

    def _vc_average(self, axis=None):
        if axis not in (None, 0):
            raise Unsupported('average')
        if cur().branch(lift(self.size) == 0):
            return float('nan')
        return self.statistics()[0]

    def _vc_var(self, ddof=0):
        if ddof or cur().branch(lift(self.size) == 0):
            raise Unsupported('variance')
        return self.statistics()[1]

    def map(self, f):
        return Mixed([Spread(x.seq.map(f)) if isinstance(x, Spread) else f(x) for x in self.items])

    def __iter__(self):
        return iter(self.items)

    @property
    def shape(self):
        raise Unsupported('shape')


def seq_sum(seq):
    """
    Sum over a sequence: an unknown number (or vector) of which only this is
    used: the sums over two sequences of the same length are equal if the
    sequences are equal element by element.
    """
    vc = cur()
    if seq.origin.counted is not None:
        return S(seq.origin.counted(seq, seq.at))
    if seq.cond is not None:
        raise Unsupported('sum over a filtered sequence')
    vc.trusted.add('facts about sums: equal for sequences of equal length which agree element by element')
    vc.abstract = 'sums'
    sums = vc.memo.setdefault('sums', [])
    num = len(sums)
    sample = seq.at(vc.fresh_expr(z3.IntSort(), 'probe'))
    vector = isinstance(sample, shims.GV)
    if not vector and not isinstance(sample, S):
        raise Unsupported('sum of {}'.format(type(sample).__name__))
    f = z3.Function('sum!{}'.format(num), z3.IntSort(), z3.RealSort())
    comp = (lambda k, i: to_real(lift(seq.at(k).at(i)))) if vector else (lambda k, i: to_real(lift(seq.at(k))))
    for m, (g, other, ocomp, ovec) in enumerate(list(sums)):
        if ovec != vector:
            continue
        wit = z3.Function('sumw!{}!{}'.format(num, m), z3.IntSort(), z3.IntSort())

        def fact(i, g=g, other=other, ocomp=ocomp, wit=wit):
            w = wit(i)
            same = z3.Or(f(i) == g(i), other.n != seq.n, z3.And(w >= 0, w < seq.n, comp(w, i) != ocomp(w, i)))
            return same

        if vector:
            vc.forall(fact)
        else:
            vc.fact(fact(z3.IntVal(0)))
    sums.append((f, seq, comp, vector))
    if vector:
        return shims.GV(lambda i: S(f(i)))
    return S(f(z3.IntVal(0)))


class Independent:
    """
    Contract for a loop whose iterations depend on nothing but their element,
    and each append the same number of values to lists (or set a row of an
    array): two arbitrary iterations are executed, after which the lists hold a
    sequence of unknown length of which these two elements are known.
    """
    sequential = True

    def __init__(self, indices):
        self.indices = indices
        self.done = 0
        self.lists = {}

    def enter(self, vc, loc, names, seq):
        if any(n in loc for n in names):
            raise Unsupported('a loop which is not independent of the order of its iterations')
        self.seq = seq if isinstance(seq, SymSeq) else None
        if self.seq is None or seq.cond is not None:
            raise Unsupported('loop over something else')
        self.before = self.look(loc)
        self.lists = {n: (v, builtins.len(v)) for n, v in loc.items() if isinstance(v, builtins.list)}
        self.values = {n: [] for n in self.lists}
        return {}

    def look(self, loc):
        res = {}
        for n, v in loc.items():
            if isinstance(v, shims.Arr):
                v = v.a
            if isinstance(v, np.ndarray):
                res[n] = [id(x) if v.dtype == object else x for x in v.reshape(-1)], v
        return res

    def elements(self, vc, seq):
        for k in self.indices:
            vc.fact(self.seq.member(k))
            self.seq.instantiate(k)
            yield self.seq.at(k)
        self.finish()

    def preserved(self, vc, loc):
        self.done += 1
        now = self.look({n: v for n, v in loc.items() if n in self.before})
        for n, (vals, _) in self.before.items():
            if n in now and now[n][0] != vals:
                raise Unsupported('a loop which changes an array')
        for n, (v, num) in self.lists.items():
            self.values[n].append(v[num:])
            del v[num:]

    def finish(self):
        for n, (v, num) in self.lists.items():
            counts = {builtins.len(x) for x in self.values[n]}
            if counts == {0} or not counts:
                continue
            if counts != {1}:
                raise Unsupported('a loop which does not append one element in every iteration')
            known = list(zip(self.indices, [x[0] for x in self.values[n]]))

            def at(k, known=known):
                for i, x in known:
                    if z3.eq(i, k):
                        return x
                raise Unsupported('element of the result of a loop')

            v.append(Spread(SymSeq(self.seq.n, at, name=n)))


class Product:
    """
    itertools.product of sequences of unknown length: one element for each
    tuple of indices. ``cond`` selects some of them.
    """
    _vc_symbolic = True

    def __init__(self, factors, elt=None, cond=None):
        self.factors = factors
        self.elt = elt
        self.cond = cond

    def at(self, ks):
        x = tuple(f.at(k) for f, k in zip(self.factors, ks))
        return self.elt(x) if self.elt is not None else x

    def selected(self, ks):
        return self.cond(ks) if self.cond is not None else z3.BoolVal(True)

    def member(self, ks):
        return z3.And([f.member(k) for f, k in zip(self.factors, ks)] + [self.selected(ks)])

    def map(self, f):
        old = self.elt
        return Product(self.factors, (lambda x: f(old(x))) if old is not None else f, self.cond)

    def filter(self, f):
        base = self

        def cond(ks):
            return z3.And(base.selected(ks), base_truth(f(base.at(ks))))

        return Product(self.factors, self.elt, cond)

    def _vc_comp(self, kind, elt, cond):
        res = self.filter(cond) if cond is not None else self
        if kind in ('list', 'gen'):
            return res.map(elt)
        raise Unsupported('{} comprehension over a product'.format(kind))

    def _vc_map(self, f):
        return self.map(f)

    def _vc_filter(self, f):
        return self.filter(f)

    def _vc_list(self):
        return self

    _vc_tuple = _vc_iter = _vc_list

    def _vc_array(self, dtype=None):
        return self

    def __iter__(self):
        raise Unsupported('iteration over a product of unknown length')

    def __len__(self):
        raise Unsupported('length of a product of unknown length')


class GenSeq(SymSeq):
    """Sequence with one entry for each dimension, indexed like vectors."""

    def _vc_array(self, dtype=None):
        return GMat(self)

    def map(self, f):
        base = self
        return GenSeq(self.n, lambda k: f(base.at(k)), name=self.name)


class GMat:
    """Array with one row of known length for each dimension."""
    _vc_symbolic = True

    def __init__(self, seq):
        self.seq = seq

    def _vc_len(self):
        return self.seq._vc_len()

    def col(self, k):
        return shims.GV(lambda i: self.seq.at(i)[k])

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] in (slice(None), Ellipsis) and isinstance(key[1], int):
            return self.col(key[1])
        raise Unsupported('element of a matrix')

    @property
    def T(self):
        return [self.col(0), self.col(1)]

    @property
    def shape(self):
        return (self.seq._vc_len(), 2)

    def sort(self, axis=-1):
        if axis not in (1, -1):
            raise Unsupported('sort')
        base = self.seq
        self.seq = GenSeq(base.n, lambda k: shims.b_sorted(base.at(k)), name=base.name)

    def _vc_array(self, dtype=None):
        return GMat(self.seq)

    def copy(self):
        return GMat(self.seq)


def sym_range(*args):
    """range() with symbolic bounds (step 1)."""
    if len(args) == 1:
        lo, hi = z3.IntVal(0), lift(args[0])
    elif len(args) == 2:
        lo, hi = lift(args[0]), lift(args[1])
    else:
        raise Unsupported('range with a step')
    n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    return SymSeq(z3.simplify(n), lambda k: S(z3.simplify(k + lo)), name='range')
