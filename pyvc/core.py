"""
pyvc - deductive verification of the real Python functions of /repo.

The source of a module is read from the repository on every run, loops and
comprehensions are rewritten so that they can be cut with invariants (see
``load.py``), and the functions are executed by CPython on symbolic values.  A
branch on a symbolic condition splits the path; a path is explored by running
the specification again with the decisions taken so far.  A specification
states a precondition (``vc.assume``), calls the real function and states its
postconditions (``vc.prove``).  Each named obligation must be valid on every
path: its negation together with the path condition is refuted by z3.

Floating point numbers are treated as mathematical reals.
"""
import os
import sys
import time
import traceback
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import z3

z3.set_param('smt.random_seed', 7)
SOLVER_TIMEOUT = 10000  # ms, per query


class Unsupported(Exception):
    """The code uses something the engine has no semantics for."""


class PathEnd(BaseException):
    """This path needs no further execution."""


class Abort(BaseException):
    """Too many paths, or out of time."""


CUR = None  # the current VC


def cur():
    if CUR is None:
        raise Unsupported('symbolic value used outside of a verification run')
    return CUR


# ------------------------------------------------------------------ scalars
def real_of(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    frac = Fraction(x)
    return z3.RealVal(frac.numerator) / z3.RealVal(frac.denominator) if frac.denominator != 1 else z3.RealVal(frac.numerator)


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_)) and not isinstance(x, S)


def is_array(x):
    import numpy as np
    return isinstance(x, np.ndarray) and x.shape != ()


def lift(x):
    """z3 expression of a Python or symbolic scalar."""
    if isinstance(x, S):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    import numpy as np
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x.item()
        return lift(x)
    if isinstance(x, np.bool_):
        x = bool(x)
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('infinite or NaN constant in arithmetic')
        return real_of(x)
    if isinstance(x, Fraction):
        return real_of(x)
    raise Unsupported('no symbolic value for {}'.format(type(x).__name__))


def num(e):
    """Numeric expression (booleans become 0 and 1)."""
    if e.sort() == z3.BoolSort():
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def both(a, b):
    a, b = num(lift(a)), num(lift(b))
    if a.sort() != b.sort():
        a, b = to_real(a), to_real(b)
    return a, b


def to_real(e):
    e = num(e)
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def truth(x):
    e = lift(x)
    if e.sort() == z3.BoolSort():
        return e
    return e != 0


_INF = float('inf')


def _inf(x):
    """+1 or -1 if x is an infinite Python float."""
    if isinstance(x, float) and (x == _INF or x == -_INF):
        return 1 if x > 0 else -1
    return 0


def _NE(sign):
    return True


class S:
    """Symbolic real, integer or truth value."""
    __slots__ = ('e', 'tag')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e, tag=None):
        self.e = e
        self.tag = tag

    # -- structure
    @property
    def is_bool(self):
        return self.e.sort() == z3.BoolSort()

    @property
    def is_int(self):
        return self.e.sort() == z3.IntSort()

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def astype(self, _type, **_kw):
        import numpy as np
        from .shims import real_type, uninterpreted
        _type = real_type(_type)
        try:
            dtype = np.dtype(_type)
        except TypeError:
            raise Unsupported('astype') from None
        if dtype.kind == 'i' and dtype.itemsize == 8:
            return S(num(self.e)) if self.is_bool or self.is_int else floor_trunc(self)
        if dtype.kind in 'iu':
            # a smaller range, which is left by wrapping around
            n = num(self.e) if self.is_bool or self.is_int else floor_trunc(self).e
            period = 2**(8 * dtype.itemsize)
            off = period // 2 if dtype.kind == 'i' else 0
            return S(z3.If(z3.And(n >= -off, n < period - off), n, (n + off) % period - off))
        if dtype.kind == 'f':
            if dtype.itemsize >= 8:
                return S(to_real(self.e))
            # rounded: some other number
            return uninterpreted('rounded_to_' + dtype.name, self)
        if dtype.kind == 'b':
            return S(truth(self))
        if dtype.kind == 'O':
            return self
        raise Unsupported('astype')

    def item(self):
        return self

    def copy(self):
        return self

    def __repr__(self):
        return 'S({})'.format(self.e)

    def __hash__(self):
        # all symbolic values collide, so that dictionaries and sets compare
        # them with ==, which splits the path
        if self.is_int and CUR is not None and CUR.hash_ints:
            # except for these numbers, which may be keys with their own hash
            for c in CUR.hash_ints:
                if CUR.branch(self.e == c):
                    return hash(c)
        return 7

    def __bool__(self):
        return cur().branch(truth(self))

    def __index__(self):
        e = z3.simplify(num(self.e))
        if z3.is_int_value(e):
            return e.as_long()
        return cur().concretize(e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        raise Unsupported('float() of a symbolic value')

    def __round__(self, ndigits=None):
        if self.is_int:
            if ndigits is not None and ndigits < 0:
                raise Unsupported('round')
            return self
        # any nearest multiple
        scale = 10**(ndigits or 0)
        vc = cur()
        k = vc.fresh_expr(z3.IntSort(), 'rounded')
        d = 2 * (self.e * real_of(scale) - z3.ToReal(k))
        vc.fact(d <= 1, d >= -1)
        return S(k) if ndigits is None else S(z3.ToReal(k) / real_of(scale))

    # -- arithmetic
    def _bin(self, other, op, swap=False):
        if is_array(other):
            f = lambda x: S._bin(self, x, op, swap)
            from .shims import Arr, vectorized
            return Arr(vectorized(f, other.astype(object)))
        if not isinstance(other, S) and not is_num(other) and not isinstance(other, Fraction):
            return NotImplemented
        if _inf(other):
            return NotImplemented
        a, b = both(self, other)
        if swap:
            a, b = b, a
        return S(op(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, subtract)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, mul)

    def __rmul__(self, o):
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, divide)

    def __rtruediv__(self, o):
        return self._bin(o, divide, True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: modulo(a, b)[0])

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: modulo(a, b)[0], True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: modulo(a, b)[1])

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: modulo(a, b)[1], True)

    def __pow__(self, o):
        if isinstance(o, (int, float)) and int(o) == o and 0 <= o <= 4:
            res = S(z3.RealVal(1) if not self.is_int else z3.IntVal(1))
            for _ in range(int(o)):
                res = res * self
            return res
        raise Unsupported('power')

    def __neg__(self):
        return S(-num(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        e = num(self.e)
        return S(z3.If(e >= 0, e, -e))

    # -- comparison
    def _cmp(self, other, op, infres):
        if is_array(other):
            from .shims import Arr, vectorized
            return Arr(vectorized(lambda x: S._cmp(self, x, op, infres), other.astype(object)))
        inf = _inf(other)
        if inf:
            return infres(inf)
        if isinstance(other, float) and other != other:
            return infres is _NE
        if not isinstance(other, S) and not is_num(other) and not isinstance(other, Fraction):
            return NotImplemented
        a, b = both(self, other)
        return S(op(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda s: s > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda s: s > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda s: s < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda s: s < 0)

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, lambda a, b: a == b, lambda s: False)

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, lambda a, b: a != b, _NE)

    # -- logic
    def __and__(self, o):
        return S(z3.And(truth(self), truth(o)))

    __rand__ = __and__

    def __or__(self, o):
        return S(z3.Or(truth(self), truth(o)))

    __ror__ = __or__

    def __invert__(self):
        if self.is_bool:
            return S(z3.Not(self.e))
        raise Unsupported('~ of a number')


def subtract(a, b):
    if a.decl().kind() == z3.Z3_OP_ADD and all(x.num_args() == 0 for x in a.children()):
        return z3.simplify(a - b)
    return a - b


def named(e):
    """A constant for an integer factor which is a compound expression."""
    if z3.is_to_real(e) and e.arg(0).num_args() > 0:
        vc = cur()
        key = ('named', e.arg(0).get_id())
        if key not in vc.memo:
            c = vc.fresh_expr(z3.IntSort(), 'named')
            vc.fact(c == e.arg(0))
            vc.memo[key] = (c, e)
        return z3.ToReal(vc.memo[key][0])
    return e


def linear(e):
    """{atom id: (atom, coefficient)} and constant of a real expression."""
    terms, const = {}, Fraction(0)
    todo = [(e, Fraction(1))]
    while todo:
        x, c = todo.pop()
        kind = x.decl().kind()
        if z3.is_rational_value(x):
            const += c * x.as_fraction()
        elif z3.is_int_value(x):
            const += c * x.as_long()
        elif kind == z3.Z3_OP_ADD:
            todo.extend((y, c) for y in x.children())
        elif kind == z3.Z3_OP_SUB:
            ch = x.children()
            todo.append((ch[0], c))
            todo.extend((y, -c) for y in ch[1:])
        elif kind == z3.Z3_OP_UMINUS:
            todo.append((x.arg(0), -c))
        elif kind == z3.Z3_OP_MUL and x.num_args() == 2 and any(z3.is_rational_value(y) or z3.is_int_value(y) for y in x.children()):
            y, z = x.children()
            if not (z3.is_rational_value(y) or z3.is_int_value(y)):
                y, z = z, y
            todo.append((z, c * (y.as_fraction() if z3.is_rational_value(y) else y.as_long())))
        elif kind == z3.Z3_OP_DIV and z3.is_rational_value(x.arg(1)):
            todo.append((x.arg(0), c / x.arg(1).as_fraction()))
        elif kind == z3.Z3_OP_TO_REAL and z3.is_int_value(x.arg(0)):
            const += c * x.arg(0).as_long()
        elif kind == z3.Z3_OP_TO_REAL and x.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            y = x.arg(0)
            if y.decl().kind() == z3.Z3_OP_MUL and not any(z3.is_int_value(z) for z in y.children()):
                key = x.get_id()
                terms[key] = (x, terms.get(key, (x, 0))[1] + c)
                continue
            parts = [z3.ToReal(z) if not z3.is_int_value(z) else z3.RealVal(z.as_long()) for z in y.children()]
            if y.decl().kind() == z3.Z3_OP_MUL:
                coef = [z for z in parts if z3.is_rational_value(z)][0]
                todo.append(([z for z in parts if not z3.is_rational_value(z)][0], c * coef.as_fraction()))
            elif y.decl().kind() == z3.Z3_OP_ADD:
                todo.extend((z, c) for z in parts)
            elif y.decl().kind() == z3.Z3_OP_SUB:
                todo.append((parts[0], c))
                todo.extend((z, -c) for z in parts[1:])
            else:
                todo.append((parts[0], -c))
        else:
            key = x.get_id()
            terms[key] = (x, terms.get(key, (x, 0))[1] + c)
    return {k: v for k, v in terms.items() if v[1] != 0}, const


def opaque(a, b):
    """
    a * b with products of unknowns as unknowns (distributed over sums); that
    these are the products is only used where it is needed (vc.exact).
    """
    vc = cur()
    (ta, ca), (tb, cb) = linear(a), linear(b)
    vc.keep.append((a, b, ta, tb))
    parts = []

    def scaled(c, x):
        if c:
            parts.append(x if c == 1 else real_of(c) * x)

    for x, c in ta.values():
        scaled(c * cb, x)
        for y, d in tb.values():
            key = ('product', ) + tuple(sorted((x.get_id(), y.get_id())))
            if key not in vc.memo:
                v = vc.fresh_expr(z3.RealSort(), 'prod')
                vc.exact.append(v == x * y)
                vc.memo[key] = (v, x, y)
            scaled(c * d, vc.memo[key][0])
    for y, d in tb.values():
        scaled(ca * d, y)
    if ca * cb or not parts:
        parts.append(real_of(ca * cb))
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


def prod(a, b):
    """Product in the statement of a lemma."""
    if CUR is not None and CUR.linear and not CUR.in_lemma:
        return opaque(a, b)
    return a * b


def mul(a, b):
    a, b = named(a), named(b)
    vc = cur()
    if vc.linear and a.sort() == z3.RealSort():
        return opaque(a, b)
    res = a * b
    if not vc.auto_lemmas:
        return res
    # products of a variable number and a variable integer (multiples of a period)
    for x, y in ((a, b), (b, a)):
        if z3.is_to_real(x) and not z3.is_rational_value(z3.simplify(y)):
            vc.multiple(y, x.arg(0))
    if a.sort() == z3.RealSort() and not z3.is_rational_value(z3.simplify(a)) and not z3.is_rational_value(z3.simplify(b)):
        vc.product(a, b)
        vc.product(b, a)
    return res


def divide(a, b):
    """a / b, where b may not be zero (checked as an obligation)."""
    vc = cur()
    a, b = to_real(a), to_real(b)
    vc.nonzero(b)
    if z3.is_rational_value(z3.simplify(b)):
        return a / b
    key = ('div', a.get_id(), b.get_id())
    if key not in vc.memo:
        q = vc.fresh_expr(z3.RealSort(), 'quot')
        if vc.linear:
            vc.fact(opaque(q, b) == a)
        else:
            vc.fact(q * b == a)
            vc.product(q, b)
        vc.memo[key] = (q, a, b)
    return vc.memo[key][0]


def modulo(a, b):
    """(a % b, a // b) with the sign of b, which must be positive."""
    vc = cur()
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
        vc.nonzero(b)
        if z3.is_int_value(z3.simplify(b)) or vc.entails(b > 0):
            if z3.is_int_value(z3.simplify(b)):
                return a % b, a / b
            key = ('imod', a.get_id(), b.get_id())
            if key not in vc.memo:
                k, m = vc.fresh_expr(z3.IntSort(), 'k'), vc.fresh_expr(z3.IntSort(), 'mod')
                if vc.linear:
                    vc.fact(z3.ToReal(a) == opaque(z3.ToReal(b), z3.ToReal(k)) + z3.ToReal(m), m >= 0, m < b)
                else:
                    vc.fact(a == b * k + m, m >= 0, m < b)
                for j in (-1, 0, 1):
                    vc.fact(z3.Implies(z3.And(a >= j * b, a < (j + 1) * b), z3.And(k == j, m == a - j * b)))
                vc.memo[key] = (m, k, a, b)
            return vc.memo[key][:2]
        raise Unsupported('modulo of a number which may be negative')
    a, b = to_real(a), to_real(b)
    key = ('mod', a.get_id(), b.get_id())
    if key not in vc.memo:
        if not vc.entails(b > 0):
            raise Unsupported('modulo of a number which may be negative')
        k = vc.fresh_expr(z3.IntSort(), 'k')
        m = a - (opaque(b, z3.ToReal(k)) if vc.linear else b * z3.ToReal(k))
        vc.fact(m >= 0, m < b)
        if not vc.linear:
            vc.multiple(b, k)
        vc.memo[key] = (m, k, a, b)
    m, k = vc.memo[key][:2]
    return m, z3.ToReal(k)


def floor_int(x):
    """floor as a symbolic integer"""
    e = lift(x)
    if e.sort() == z3.IntSort():
        return S(e)
    return S(z3.ToInt(e))


def floor_trunc(x):
    """int(): towards zero"""
    e = to_real(lift(x))
    vc = cur()
    key = ('trunc', e.get_id())
    if key not in vc.memo:
        t = vc.fresh_expr(z3.IntSort(), 'trunc')
        r = z3.ToReal(t)
        vc.fact(z3.Implies(e >= 0, z3.And(r <= e, e < r + 1, t >= 0)), z3.Implies(e < 0, z3.And(r >= e, e > r - 1, t <= 0)))
        vc.memo[key] = (t, e)
    return S(vc.memo[key][0])


def s_min(a, b):
    if _inf(a) or _inf(b):
        return (b if _inf(a) > 0 else a) if _inf(a) else (a if _inf(b) > 0 else b)
    a, b = both(a, b)
    return S(z3.If(a <= b, a, b))


def s_max(a, b):
    if _inf(a) or _inf(b):
        return (a if _inf(a) > 0 else b) if _inf(a) else (b if _inf(b) > 0 else a)
    a, b = both(a, b)
    return S(z3.If(a >= b, a, b))


def ite(c, a, b):
    if isinstance(c, S) or z3.is_expr(c):
        c = truth(c) if isinstance(c, S) else c
        if isinstance(a, S) and a.is_bool or isinstance(a, bool):
            return S(z3.If(c, truth(a), truth(b)))
        a, b = both(a, b)
        return S(z3.If(c, a, b))
    return a if c else b


def And(*args):
    return S(z3.And([truth(a) for a in args]))


def Or(*args):
    return S(z3.Or([truth(a) for a in args]))


def Not(a):
    return S(z3.Not(truth(a)))


def Implies(a, b):
    return S(z3.Implies(truth(a), truth(b)))


def Iff(a, b):
    return S(truth(a) == truth(b))


def ring_identity(hyps, concl):
    """Is the equality a consequence of the equalities, as an identity of polynomials?"""
    import sympy
    names = {}

    def conv(e):
        kind = e.decl().kind()
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return sympy.Rational(f.numerator, f.denominator)
        if z3.is_int_value(e):
            return sympy.Integer(e.as_long())
        if kind == z3.Z3_OP_ADD:
            return sum(conv(x) for x in e.children())
        if kind == z3.Z3_OP_MUL:
            res = sympy.Integer(1)
            for x in e.children():
                res *= conv(x)
            return res
        if kind == z3.Z3_OP_SUB:
            ch = [conv(x) for x in e.children()]
            return ch[0] - sum(ch[1:])
        if kind == z3.Z3_OP_UMINUS:
            return -conv(e.arg(0))
        if kind == z3.Z3_OP_TO_REAL:
            return conv(e.arg(0))
        if e.num_args() == 0:
            return names.setdefault(str(e), sympy.Symbol('x{}'.format(len(names))))
        raise ValueError(str(e))

    try:
        eqs = [h for h in hyps if z3.is_eq(h)]
        rel = [sympy.expand(conv(h.arg(0)) - conv(h.arg(1))) for h in eqs]
        goals = concl.children() if z3.is_and(concl) else [concl]
        for g in goals:
            p = sympy.expand(conv(g.arg(0)) - conv(g.arg(1)))
            if p == 0:
                continue
            gens = [names[n] for n in names]
            if sympy.reduced(p, rel, *gens, order='lex')[1] != 0:
                return False
        return True
    except (ValueError, sympy.PolynomialError):
        return False


# ---------------------------------------------------------------------- runs
class VC:
    """One specification, explored over all its paths."""

    def __init__(self, name, deadline, max_paths=4000, timeout=SOLVER_TIMEOUT):
        self.name = name
        self.deadline = deadline
        self.max_paths = max_paths
        self.timeout = timeout
        self.obligations = {}
        self.queries = 0
        self.solver_s = 0.
        self.paths = 0
        self.trusted = set()
        self.functions = set()
        self.covered = set()
        self.unsupported = []
        self.expected_names = None
        self.worklist = []
        self.modules = {}
        self.lemmas = {}
        self.coupled = False
        self.in_lemma = False
        self.entries = {}

    # -- one path
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.facts = []
        self.memo = {}
        self.keep = []
        self.counter = {}
        self.indices = []
        self.universals = []
        self.norms = []
        self.grids = []
        self.witnesses = []
        self.elements = {}  # entries of sequences of unknown length
        self.auto_lemmas = True
        self.linspace_error = None
        self.linear = False
        self.exact = []
        self.atom_cache = {}
        self.local_hubs = None
        self.object_arrays = False
        self.multiples = []
        self.mult_done = set()
        self.products = {}
        self.abstract = None
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.in_real = 0
        self.scope = {}
        self.loops = {}
        self.hash_ints = ()

    def fresh_expr(self, sort, name):
        n = self.counter[name] = self.counter.get(name, 0) + 1
        return z3.Const('{}!{}'.format(name, n), sort)

    def real(self, name):
        return S(self.fresh_expr(z3.RealSort(), name))

    def int(self, name, low=None, high=None):
        x = S(self.fresh_expr(z3.IntSort(), name))
        if low is not None:
            self.fact(x.e >= low)
        if high is not None:
            self.fact(x.e <= high)
        return x

    def bool(self, name):
        return S(self.fresh_expr(z3.BoolSort(), name))

    def fact(self, *conds):
        for c in conds:
            c = truth(c) if not z3.is_expr(c) else c
            self.facts.append(c)
            self.solver.add(c)

    assume_raw = fact

    def forget(self, n):
        """Keep the first n facts only."""
        self.facts = self.facts[:n]
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.solver.add(self.facts)

    def once(self, key):
        """Is this the first path which gets here (with these choices before)?"""
        taken = tuple(self.taken)
        return self.entries.setdefault(key, taken) == taken

    def assume(self, *conds):
        for c in conds:
            if isinstance(c, bool):
                if not c:
                    raise PathEnd()
                continue
            self.fact(c)

    def check(self, *extra, timeout=None):
        if time.time() > self.deadline:
            raise Abort('time limit')
        self.queries += 1
        t0 = time.time()
        if timeout is not None:
            self.solver.set('timeout', timeout)
        try:
            res = self.solver.check(*extra)
        finally:
            if timeout is not None:
                self.solver.set('timeout', self.timeout)
        self.solver_s += time.time() - t0
        return res

    def entails(self, cond, timeout=None):
        return self.check(z3.Not(cond), timeout=timeout) == z3.unsat

    # -- multiples of a period (nonlinear facts given explicitly)
    def multiple(self, size, k):
        """
        Facts about size * j for integers j = sums of up to three of the
        integers which size is multiplied with: the sign lemmas
        j >= n implies size * j >= n * size for n = 1, 2 (size > 0).
        """
        key = (size.get_id(), k.get_id())
        if key in self.mult_done or z3.is_int_value(z3.simplify(k)) or len(self.multiples) > 40:
            return
        self.mult_done.add(key)
        self.keep.append((size, k))
        others = [o for s, o in self.multiples if s.get_id() == size.get_id()]
        constant = z3.is_rational_value(z3.simplify(size))
        if not constant:
            combos = [[(1, k)]]
            combos += [[(1, k), (sign, o)] for o in others for sign in (1, -1)]
            if len(others) <= 5:
                combos += [[(1, k), (s1, o1), (s2, o2)] for n, o1 in enumerate(others) for o2 in others[n + 1:] for s1 in (1, -1) for s2 in (1, -1)]
            for combo in combos:
                j = z3.Sum([o if sign > 0 else -o for sign, o in combo]) if len(combo) > 1 else k
                prod = z3.Sum([size * z3.ToReal(o) if sign > 0 else -(size * z3.ToReal(o)) for sign, o in combo]) if len(combo) > 1 else size * z3.ToReal(k)
                self.fact(z3.Implies(size > 0, z3.And(
                    z3.Implies(j >= 1, prod >= size), z3.Implies(j <= -1, prod <= -size), z3.Implies(j == 0, prod == 0), z3.Implies(j >= 2, prod >= 2 * size),
                    z3.Implies(j <= -2, prod <= -2 * size), z3.Implies(j == 1, prod == size), z3.Implies(j == -1, prod == -size)
                )))
        self.multiples.append((size, k))

    def product(self, x, y):
        """x * y occurs: cancellation lemmas with the other multiples of y."""
        others = self.products.setdefault(y.get_id(), [])
        if any(o.get_id() == x.get_id() for o in others) or len(others) > 8:
            return
        self.keep.append((x, y))
        for o in others if self.auto_lemmas else ():
            self.fact(z3.Implies(z3.And(y != 0, x * y == o * y), x == o), z3.Implies(z3.And(y > 0, x * y <= o * y), x <= o), z3.Implies(z3.And(y > 0, x * y >= o * y), x >= o))
        others.append(x)

    def prove_multiple(self, name, delta, size):
        """delta is a whole multiple of size (size > 0)"""
        rec = self.record(name)
        before = rec['status']
        if self.prove(name, self.is_multiple(delta, size)):
            return
        if before == 'discharged' and rec['status'] == 'refuted':
            # is it refuted for every factor, or is the factor not a known one?
            q = self.fresh_expr(z3.RealSort(), 'factor')
            if self.check(q * size == delta, z3.Not(z3.IsInt(q))) != z3.sat:
                rec.update(status='undecided', reason='no integer factor found')

    def is_multiple(self, delta, size):
        """
        delta is a whole multiple of size: one of the integers known to be
        multiplied with it (or the sum of up to three) is the factor.
        """
        ints = []
        for _, o in self.multiples:
            if not any(o.get_id() == x.get_id() for x in ints):
                ints.append(o)
        combos = [z3.RealVal(0), size, -size]
        signed = [x for o in ints for x in (size * z3.ToReal(o), -(size * z3.ToReal(o)))]
        combos += signed
        combos += [a + c for a in signed for c in (size, -size)]
        for n, a in enumerate(ints):
            for m, b in enumerate(ints[n + 1:]):
                pair = [sa * (size * z3.ToReal(a)) + sb * (size * z3.ToReal(b)) for sa in (1, -1) for sb in (1, -1)]
                combos += pair + [p + c for p in pair for c in (size, -size)]
                if len(ints) <= 5:
                    combos += [p + sc * (size * z3.ToReal(c)) for p in pair for c in ints[n + 1:][m + 1:] for sc in (1, -1)]
        return z3.Or([delta == c for c in combos])

    # -- generic indices and universal facts
    def index(self, name='i'):
        i = self.fresh_expr(z3.IntSort(), name)
        self.indices.append(i)
        for u in list(self.universals):
            self.fact(u(i))
        return i

    def forall(self, fct):
        """Assume a fact for all indices."""
        self.universals.append(fct)
        for i in list(self.indices):
            self.fact(fct(i))

    # -- lemmas
    def lemma(self, name, n, statement):
        """
        A lemma about n real numbers, proved on its own (an obligation), to be
        used for instances: statement(*vars) -> (hypotheses, conclusion).
        """
        if name not in self.lemmas:
            xs = [z3.Real('{}_{}'.format(name, k)) for k in range(n)]
            self.in_lemma = True
            hyps, concl = statement(*xs)
            self.in_lemma = False
            rec = self.record('lemma ' + name)
            rec['paths'] += 1
            ok = False
            for make in (lambda: z3.Solver(), lambda: z3.SolverFor('QF_NRA'), lambda: z3.Tactic('qfnra-nlsat').solver()):
                solver = make()
                solver.set('timeout', self.timeout)
                solver.add(hyps)
                solver.add(z3.Not(concl))
                t0 = time.time()
                res = solver.check()
                self.queries += 1
                self.solver_s += time.time() - t0
                rec['queries'] += 1
                if res == z3.unsat:
                    ok = True
                    break
            if not ok and ring_identity(hyps, concl):
                ok = True
                self.trusted.add('sympy: reduction of a polynomial by others (for lemma {})'.format(name))
            if ok:
                self.covered.add('lemma ' + name)
            else:
                rec.update(status='undecided', reason='lemma not proved')
            self.lemmas[name] = ok

        def instance(*args):
            if self.lemmas[name]:
                hyps, concl = statement(*[to_real(lift(a)) for a in args])
                self.fact(z3.Implies(z3.And(hyps), concl))

        return instance

    def hint(self, cond, hubs=None, timeout=None):
        """
        Use a fact if it follows from what is known (else do nothing); if hubs
        are given, only from the facts which are connected to it through other
        unknowns than these.
        """
        cond = truth(cond) if not z3.is_expr(cond) else cond
        if hubs is None:
            known = self.entails(cond, timeout=timeout)
        else:
            known = self.entails_locally(cond, hubs, timeout)
        if known:
            self.fact(cond)
        return known

    def atoms(self, e):
        """Unknowns (constants and applications of unknown functions) in e."""
        key = e.get_id()
        if key not in self.atom_cache:
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                res = frozenset([key])
            else:
                res = frozenset().union(*[self.atoms(c) for c in e.children()]) if e.num_args() else frozenset()
            self.atom_cache[key] = (res, e)
        return self.atom_cache[key][0]

    def entails_locally(self, cond, hubs, timeout=None):
        hubs = frozenset().union(*[self.atoms(h) for h in hubs])
        seen = set(self.atoms(cond)) - hubs
        facts = [(f, self.atoms(f)) for f in self.facts]
        chosen = []
        changed = True
        while changed:
            changed = False
            left = []
            for f, atoms in facts:
                if atoms & seen or atoms <= hubs:
                    chosen.append(f)
                    new = atoms - hubs - seen
                    if new:
                        seen |= new
                        changed = True
                else:
                    left.append((f, atoms))
            facts = left
        return self.entailed_by(chosen, cond, timeout)

    def entailed_by(self, facts, cond, timeout=None):
        solver = z3.Solver()
        solver.set('timeout', timeout or self.timeout)
        solver.add(facts)
        solver.add(z3.Not(cond))
        self.queries += 1
        t0 = time.time()
        res = solver.check()
        self.solver_s += time.time() - t0
        return res == z3.unsat

    # -- branching
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if len(self.taken) > 20000:
            raise Abort('path too long')
        n = len(self.taken)
        if n < len(self.prefix):
            val = self.prefix[n]
            self.taken.append(val)
            self.fact(cond if val else z3.Not(cond))
            return val
        if self.local_hubs is not None:
            # with the connected facts only: may leave impossible paths
            can_t = z3.unsat if self.entails_locally(z3.Not(cond), self.local_hubs) else z3.sat
            can_f = z3.unsat if can_t != z3.unsat and self.entails_locally(cond, self.local_hubs) else z3.sat
        else:
            can_t = self.check(cond)
            can_f = self.check(z3.Not(cond)) if can_t != z3.unsat else z3.sat
        if can_t == z3.unsat:
            self.taken.append(False)
            self.fact(z3.Not(cond))
            return False
        if can_f == z3.unsat:
            self.taken.append(True)
            self.fact(cond)
            return True
        self.worklist.append(self.taken + [False])
        self.taken.append(True)
        self.fact(cond)
        return True

    def choose(self, name='choice'):
        """Nondeterministic choice (both explored)."""
        if len(self.taken) > 20000:
            raise Abort('path too long')
        n = len(self.taken)
        if n < len(self.prefix):
            val = self.prefix[n]
        else:
            self.worklist.append(self.taken + [False])
            val = True
        self.taken.append(val)
        return val

    def pick(self, n, name='pick'):
        """Nondeterministic number in range(n), one path for each."""
        for k in range(n - 1):
            if self.choose(name):
                return k
        return n - 1

    def concretize(self, e):
        """Case split over the (few) possible values of an integer."""
        for _ in range(12):
            if self.check() != z3.sat:
                raise PathEnd()
            val = self.solver.model().eval(e, model_completion=True).as_long()
            if self.branch(e == val):
                return val
        raise Unsupported('integer with many possible values used as an index')

    def nonzero(self, b):
        b = z3.simplify(b)
        if z3.is_rational_value(b) or z3.is_int_value(b):
            return
        if ('nz', b.get_id()) in self.memo:
            return
        self.memo[('nz', b.get_id())] = b
        if not self.entails(b != 0):
            # numpy gives inf or nan here: outside of the domain of the model
            self.prove('no division by zero', b != 0)
            self.fact(b != 0)

    # -- obligations
    def record(self, name):
        return self.obligations.setdefault(
            name, dict(name='{}: {}'.format(self.name, name), status='discharged', paths=0, queries=0, s=0.)
        )

    def integer_facts(self):
        """The facts about integers and truth values only."""
        res = []
        for f in self.facts:
            if all(self.atom_cache[a][1].sort() != z3.RealSort() for a in self.atoms(f)):
                res.append(f)
        return res

    def prove(self, name, cond, detail=None, model_terms=None, inductive=False, using=None, naming=()):
        """
        A named obligation, to hold on every path. It is first tried with some
        of the facts only, if given (with names for some of the terms).
        """
        if isinstance(cond, bool) or type(cond).__name__ == 'bool_':
            cond = z3.BoolVal(bool(cond))
        cond = truth(cond) if not z3.is_expr(cond) else cond
        rec = self.record(name)
        rec['paths'] += 1
        if rec['status'] == 'refuted':
            return False
        t0 = time.time()
        simp = z3.simplify(cond)
        if z3.is_true(simp):
            # still needs the path to be possible to count as covered
            if name not in self.covered and self.check(timeout=1500) != z3.unsat:
                self.covered.add(name)
            rec['s'] += time.time() - t0
            return True
        subs = [(t, z3.FreshConst(t.sort(), 'term')) for t in naming]
        if using is not None and self.entailed_by([z3.substitute(f, *subs) for f in using], z3.substitute(cond, *subs)):
            res = z3.unsat
        elif self.local_hubs is not None and self.entails_locally(cond, self.local_hubs):
            res = z3.unsat
        else:
            res = self.check(z3.Not(cond))
        rec['queries'] += 1
        if res == z3.unknown or (res == z3.sat and self.linear):
            res = self.second_opinion(cond) if not self.linear else self.exact_opinion(cond)
        rec['s'] += time.time() - t0
        if res == z3.unsat:
            if name not in self.covered and self.check(timeout=1500) != z3.unsat:
                self.covered.add(name)
            return True
        if res == z3.sat:
            if not self.linear:
                self.check(z3.Not(cond))
            try:
                model = self.solver.model() if not self.linear else self.exact_model
                txt = {str(d): str(model[d]) for d in model.decls() if not str(d).startswith('!')}
            except z3.Z3Exception:
                model, txt = None, {}
            weak = self.abstract or self.coupled
            rec['contract'] = self.coupled if not self.abstract else None
            rec.update(status='undecided' if weak else 'refuted', reason='not provable in the abstraction ({})'.format(weak) if weak else 'the negation is satisfiable on this path', model=dict(list(sorted(txt.items()))[:60]), detail=str(detail)[:600] if detail is not None else None,
                       decisions=[bool(x) for x in self.taken], inductive=inductive, condition=str(simp)[:800])
            rec['model_terms'] = {k: str(model.eval(lift(v), model_completion=True)) for k, v in (model_terms or {}).items()} if model is not None else {}
        elif rec['status'] != 'refuted':
            rec.update(status='undecided', reason='solver: {}'.format(self.solver.reason_unknown() if not self.linear else 'unknown'))
        return False

    def exact_opinion(self, cond):
        """With the products of unknowns."""
        for make in (lambda: z3.Solver(), lambda: z3.SolverFor('QF_NRA'), lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            try:
                s = make()
                s.set('timeout', self.timeout)
                s.add(self.facts)
                s.add(self.exact)
                s.add(z3.Not(cond))
                self.queries += 1
                t0 = time.time()
                res = s.check()
                self.solver_s += time.time() - t0
                if res == z3.sat:
                    self.exact_model = s.model()
                if res != z3.unknown:
                    return res
            except z3.Z3Exception:
                pass
        return z3.unknown

    def second_opinion(self, cond):
        """Other tactics for queries the incremental solver does not decide."""
        for make in (lambda: z3.Solver(), lambda: z3.SolverFor('QF_NRA'), lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            try:
                s = make()
                s.set('timeout', self.timeout)
                s.add(self.facts)
                s.add(z3.Not(cond))
                self.queries += 1
                t0 = time.time()
                res = s.check()
                self.solver_s += time.time() - t0
                if res == z3.unsat:
                    return res
            except z3.Z3Exception:
                pass
        return z3.unknown

    def prove_all(self, name, fct, **kw):
        i = self.index('gen')
        return self.prove(name, fct(i), **kw)

    def fail(self, name, detail=None):
        """An obligation which is violated whenever this point is reached."""
        return self.prove(name, z3.BoolVal(False), detail=detail)

    # -- driver
    def run(self, spec):
        global CUR
        self.worklist = [[]]
        aborted = None
        while self.worklist:
            prefix = self.worklist.pop()
            if self.paths >= self.max_paths or time.time() > self.deadline:
                aborted = 'more than {} paths'.format(self.paths) if self.paths >= self.max_paths else 'time limit'
                break
            self.paths += 1
            self.reset(prefix)
            CUR = self
            try:
                spec(self)
            except PathEnd:
                pass
            except Abort as exc:
                aborted = str(exc)
                break
            except Unsupported as exc:
                self.note_unsupported('unsupported: {}'.format(exc), exc)
            except RecursionError as exc:
                self.note_unsupported('recursion', exc)
            except z3.Z3Exception as exc:
                self.note_unsupported('z3: {}'.format(exc), exc)
            except Exception as exc:  # pylint: disable=broad-except
                self.note_unsupported('{}: {}'.format(type(exc).__name__, exc), exc)
            finally:
                CUR = None
        if aborted:
            self.unsupported.append(aborted)
        res = []
        names = list(self.obligations)
        for name in self.expected_names or []:
            if name not in names:
                rec = self.record(name)
                rec.update(status='undecided', reason='no path reaches this obligation')
        for name, rec in self.obligations.items():
            if rec['status'] == 'discharged':
                if self.unsupported:
                    rec.update(status='undecided', reason='; '.join(self.unsupported[:2])[:500])
                elif name not in self.covered and rec['paths'] and not rec.get('unreachable'):
                    rec.update(status='undecided', reason='vacuous: no satisfiable path')
            if rec.get('contract') and self.unsupported:
                rec['contract'] = None  # the code is not what the contract is written for
            rec['s'] = round(rec['s'], 3)
            res.append(rec)
        if not res:
            rec = self.record('verified')
            rec.update(status='undecided', reason='; '.join(self.unsupported[:2])[:500] or 'no obligation generated')
            res.append(rec)
        return res

    def note_unsupported(self, msg, exc):
        tb = traceback.extract_tb(exc.__traceback__)
        where = '; '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        self.unsupported.append('{} [{}]'.format(msg, where))

    def real_exception(self, name, exc):
        """The real code raised on an input which satisfies the precondition."""
        self.record(name)['unreachable'] = True  # it is discharged if no input gets here
        self.prove(name, z3.BoolVal(False), detail='{}: {}'.format(type(exc).__name__, exc))


def exceptional(exc):
    """Exceptions of the engine itself, which are not behaviour of the code."""
    return isinstance(exc, (Unsupported, PathEnd, Abort, z3.Z3Exception, RecursionError))
