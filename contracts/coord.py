"""C02 - C06: the coordinate system, for boxes of any dimension."""
import z3

from pyvc import core, shims, load
from pyvc.core import S, And, Or, Not, Implies, lift, to_real
from pyvc.shims import GV, new_vector, new_int_vector, gv_norm
from pyvc.seq import SymSeq, GenSeq
from . import spec

MOD = 'nodefinder.coordinate_system'
FUNS = [MOD + '.CoordinateSystem.' + n for n in ('__init__', 'get_frac', 'get_pos', 'distance', 'connecting_vector', 'average', 'normalize_position')]


class Box:
    """A coordinate system with arbitrary limits, of arbitrary dimension."""

    def __init__(self, vc, periodic=None, reverse=True):
        cls = load.Loader().get(MOD, 'CoordinateSystem')
        self.a, self.b = new_vector('lim_a'), new_vector('lim_b')
        n = vc.int('dim', low=1)
        vc.forall(lambda i: lift(self.a.at(i)) != lift(self.b.at(i)))
        self.lo = shims.NP.minimum(self.a, self.b)
        self.hi = shims.NP.maximum(self.a, self.b)
        self.periodic = vc.choose('periodic') if periodic is None else periodic
        self.n = n
        self.vc = vc
        self.cs = self.fresh(cls)
        # the side lengths, as the code has them (proved to be right in C02)
        vc.forall(lambda i: size_at(self, i) > 0)

    def fresh(self, cls=None):
        """A coordinate system which was not used before."""
        cls = cls or load.Loader().get(MOD, 'CoordinateSystem')
        limits = GenSeq(self.n.e, lambda i: (self.a.at(i), self.b.at(i)), name='limits')
        return call(self.vc, cls, limits=limits, periodic=self.periodic)

    def size(self, i):
        return lift(self.hi.at(i)) - lift(self.lo.at(i))


def size_at(box, i):
    return box.size(i)


def call(vc, f, *args, **kw):
    """Run the real code; an assertion which fails is a violated obligation."""
    try:
        return f(*args, **kw)
    except AssertionError as exc:
        vc.real_exception('no assertion in the code fails', exc)
        raise core.PathEnd()


def prove_period(vc, name, box, delta, i):
    """delta[i] is a whole number of periods"""
    vc.prove_multiple(name, to_real(lift(delta.at(i))), box.size(i))


def at(v, i):
    return to_real(lift(v.at(i)))


@spec('C02', functions=FUNS[:3], seconds=60)
def coordinate_system(vc):
    box = Box(vc)
    cs = box.cs
    i = vc.index('gen')
    vc.prove('dim is the number of limits', lift(cs.dim) == box.n.e)
    vc.prove('size is the side length', at(cs.size, i) == box.size(i))
    vc.prove('limits are sorted', z3.And(at(cs.limits[:, 0], i) == lift(box.lo.at(i)), at(cs.limits[:, 1], i) == lift(box.hi.at(i))))


@spec('C02', functions=FUNS[:3], seconds=60)
def get_frac(vc):
    box = Box(vc)
    pos = new_vector('pos')
    orig = pos.copy()
    i = vc.index('gen')
    frac = call(vc, box.cs.get_frac, pos)
    t = core.divide(at(orig, i) - at(box.lo, i), box.size(i))
    if box.periodic:
        vc.prove_multiple('fractional coordinates are the linear ones modulo one', at(frac, i) - t, z3.RealVal(1))
        vc.prove('fractional coordinates lie between zero and one', z3.And(at(frac, i) >= 0, at(frac, i) < 1))
    else:
        vc.prove('fractional coordinates are linear', at(frac, i) == t)
    vc.prove('the position is not modified', at(pos, i) == at(orig, i))


@spec('C02', functions=FUNS[:3], seconds=60)
def frac_of_pos(vc):
    box = Box(vc)
    frac = new_vector('frac')
    orig = frac.copy()
    i = vc.index('gen')
    pos = call(vc, box.cs.get_pos, frac)
    vc.prove('get_pos is linear', at(pos, i) == at(box.lo, i) + at(orig, i) * box.size(i))
    back = call(vc, box.cs.get_frac, pos)
    if box.periodic:
        vc.prove_multiple('get_frac(get_pos(x)) is x modulo one', at(back, i) - at(orig, i), z3.RealVal(1))
        vc.prove('get_frac(get_pos(x)) is between zero and one', z3.And(at(back, i) >= 0, at(back, i) < 1))
    else:
        vc.prove('get_frac(get_pos(x)) is x', at(back, i) == at(orig, i))
    vc.prove('the coordinates are not modified', at(frac, i) == at(orig, i))


@spec('C02', functions=FUNS[:3], seconds=60)
def pos_of_frac(vc):
    box = Box(vc)
    pos = new_vector('pos')
    orig = pos.copy()
    i = vc.index('gen')
    back = call(vc, box.cs.get_pos, call(vc, box.cs.get_frac, pos))
    if box.periodic:
        prove_period(vc, 'get_pos(get_frac(x)) is x up to whole periods', box, back - orig, i)
        vc.prove('get_pos(get_frac(x)) is in the box', z3.And(at(back, i) >= at(box.lo, i), at(back, i) < at(box.hi, i)))
    else:
        vc.prove('get_pos(get_frac(x)) is x', at(back, i) == at(orig, i))


@spec('C03', functions=[FUNS[0], FUNS[6]], seconds=60)
def normalize_position(vc):
    box = Box(vc)
    pos = new_vector('pos')
    orig = pos.copy()
    i = vc.index('gen')
    res = call(vc, box.cs.normalize_position, pos)
    if box.periodic:
        vc.prove('the normalised position is within the limits', z3.And(at(res, i) >= at(box.lo, i), at(res, i) < at(box.hi, i)))
        prove_period(vc, 'it differs by a whole number of periods', box, res - orig, i)
        again = call(vc, box.cs.normalize_position, res.copy())
        vc.prove('normalising is idempotent', at(again, i) == at(res, i))
    else:
        vc.prove('unchanged without periodicity', at(res, i) == at(orig, i))
    vc.prove('the given position is not modified', at(pos, i) == at(orig, i))


def shifted(vc, box, v, by=None):
    n = by if by is not None else new_int_vector('shift')

    def comp(i):
        k = n.at(i).e
        s = box.size(i)
        vc.multiple(s, k)
        return S(at(v, i) + s * z3.ToReal(k))

    return GV(comp)


@spec('C04', functions=[FUNS[0], FUNS[3]], seconds=90)
def distance_minimal(vc):
    """Not longer than any vector which connects the positions."""
    box = Box(vc)
    p, q = new_vector('p'), new_vector('q')
    p0, q0 = p.copy(), q.copy()
    d = call(vc, box.cs.distance, p, q)
    i = vc.index('gen')
    vc.prove('the positions are not modified', z3.And(at(p, i) == at(p0, i), at(q, i) == at(q0, i)))
    vc.prove('the distance is not negative', lift(d) >= 0)
    if box.periodic:
        vec = shifted(vc, box, q0 - p0)
        vc.prove('not longer than the way to any image', lift(d) <= gv_norm(vec).e)
        # the image which is reached
        def comp(j):
            m, k = core.modulo(at(q0, j) - at(p0, j), box.size(j))
            return S(z3.If(m <= box.size(j) - m, m, m - box.size(j)))

        vc.prove('it is the length of the way to an image', lift(d) == gv_norm(GV(comp)).e)
    else:
        vc.prove('it is the length of the difference', lift(d) == gv_norm(q0 - p0).e)


@spec('C04', functions=[FUNS[0], FUNS[3]], seconds=90)
def distance_symmetric(vc):
    box = Box(vc)
    p, q = new_vector('p'), new_vector('q')
    d = call(vc, box.cs.distance, p.copy(), q.copy())
    e = call(vc, box.cs.distance, q.copy(), p.copy())
    vc.prove('the distance is symmetric', lift(d) == lift(e))
    zero = call(vc, box.cs.distance, p.copy(), p.copy())
    vc.prove('the distance of a position to itself is zero', lift(zero) == 0)


@spec('C04', functions=[FUNS[0], FUNS[3]], seconds=90)
def distance_periodic(vc):
    box = Box(vc, periodic=True)
    p, q = new_vector('p'), new_vector('q')
    d = call(vc, box.cs.distance, p.copy(), q.copy())
    first = vc.choose('first')
    if first:
        e = call(vc, box.cs.distance, shifted(vc, box, p), q.copy())
    else:
        e = call(vc, box.cs.distance, p.copy(), shifted(vc, box, q))
    vc.prove('the distance does not change under whole periods', lift(d) == lift(e))


@spec('C05', functions=[FUNS[0], FUNS[3], FUNS[4]], seconds=90)
def connecting_vector(vc):
    box = Box(vc)
    p, q = new_vector('p'), new_vector('q')
    p0, q0 = p.copy(), q.copy()
    v = call(vc, box.cs.connecting_vector, p, q)
    i = vc.index('gen')
    if box.periodic:
        prove_period(vc, 'it leads to an image of the second position', box, p0 + v - q0, i)
    else:
        vc.prove('it leads to the second position', at(p0, i) + at(v, i) == at(q0, i))
    vc.prove('the positions are not modified', z3.And(at(p, i) == at(p0, i), at(q, i) == at(q0, i)))
    d = call(vc, box.cs.distance, p0, q0)
    vc.prove('its length is the distance', gv_norm(v).e == lift(d))


def independent(name, nargs):
    """
    The result depends on the positions as they are when the method is called,
    not on earlier calls: with the same arrays (which had other contents), or
    with those of other positions.
    """

    def check(vc):
        box = Box(vc)
        new = [new_vector('new{}'.format(k)) for k in range(nargs)]
        args = [new_vector('old{}'.format(k)) for k in range(nargs)]
        call(vc, getattr(box.cs, name), *args)
        for a, v in zip(args, new):
            a[...] = v.copy()
        res = call(vc, getattr(box.cs, name), *args)
        other = box.fresh()
        want = call(vc, getattr(other, name), *[v.copy() for v in new])
        what = 'the result does not depend on earlier calls'
        if isinstance(res, GV) and isinstance(want, GV):
            i = vc.index('gen')
            vc.prove(what, at(res, i) == at(want, i))
        else:
            vc.prove(what, to_real(lift(res)) == to_real(lift(want)))
        i = vc.index('gen')
        vc.prove('the positions are not modified', z3.And([at(a, i) == at(v, i) for a, v in zip(args, new)]))

    return check


for _prop, _name, _n, _f in (('C02', 'get_frac', 1, FUNS[1]), ('C02', 'get_pos', 1, FUNS[2]), ('C03', 'normalize_position', 1, FUNS[6]), ('C04', 'distance', 2, FUNS[3]), ('C05', 'connecting_vector', 2, FUNS[4])):
    spec(_prop, name=_name + '_again', functions=[FUNS[0], _f], seconds=90, scope='boxes of any dimension; one earlier call with any positions')(independent(_name, _n))


def shortest(vc, box, p, q):
    """
    The contract of connecting_vector (C05) in a periodic box: per component
    one of the two candidates next to zero, depending on the difference of the
    positions modulo the period only.
    """
    short = z3.Function('short', z3.IntSort(), z3.RealSort(), z3.RealSort())

    def comp(i):
        size = box.size(i)
        m, _ = core.modulo(at(q, i) - at(p, i), size)
        r = short(i, m)
        vc.fact(z3.Or(r == m, r == m - size), 2 * r <= size, -2 * r <= size)
        return S(r)

    return GV(comp)


@spec('C05', 'C06', functions=[FUNS[0], FUNS[4]], seconds=90)
def connecting_vector_contract(vc):
    """What average relies on."""
    box = Box(vc, periodic=True)
    p, q = new_vector('p'), new_vector('q')
    v = call(vc, box.cs.connecting_vector, p.copy(), q.copy())
    i = vc.index('gen')
    m, _ = core.modulo(at(q, i) - at(p, i), box.size(i))
    vc.prove('one of the two candidates next to zero', z3.Or(at(v, i) == m, at(v, i) == m - box.size(i)))
    vc.prove('at most half a period in every direction', z3.And(2 * at(v, i) <= box.size(i), -2 * at(v, i) <= box.size(i)))
    if vc.choose('first'):
        w = call(vc, box.cs.connecting_vector, shifted(vc, box, p), q.copy())
    else:
        w = call(vc, box.cs.connecting_vector, p.copy(), shifted(vc, box, q))
    vc.prove('unchanged when a position is shifted by whole periods', at(v, i) == at(w, i))


def positions_of(vc, name='pos'):
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
    return SymSeq.new(lambda k: GV(lambda i: S(f(k, i))), name, min_len=1)


@spec('C06', functions=[FUNS[0], FUNS[4], FUNS[5], FUNS[6]], seconds=120)
def average(vc):
    box = Box(vc)
    box.cs.connecting_vector = lambda p, q: shortest(vc, box, p, q) if box.periodic else q - p
    pos = positions_of(vc)
    i = vc.index('gen')
    res = call(vc, box.cs.average, pos)
    if box.periodic:
        vc.prove('the average is within the limits', z3.And(at(res, i) >= at(box.lo, i), at(res, i) < at(box.hi, i)))
        p0 = pos.at(z3.IntVal(0))
        # the shortest vectors (C05)
        vecs = pos.map(lambda p: shortest(vc, box, p0, p))
        mean = vecs._vc_average(0)
        prove_period(vc, 'it is the first position and the mean of the shortest vectors', box, res - (p0 + mean), i)
    else:
        mean = pos._vc_average(0)
        vc.prove('it is the arithmetic mean', at(res, i) == at(mean, i))


@spec('C06', functions=[FUNS[0], FUNS[4], FUNS[5], FUNS[6]], seconds=120)
def average_periodic(vc):
    box = Box(vc, periodic=True)
    box.cs.connecting_vector = lambda p, q: shortest(vc, box, p, q)
    pos = positions_of(vc)
    n = new_int_vector('nshift')
    if vc.choose('first'):
        which = z3.IntVal(0)
    else:
        which = vc.int('which', low=1).e

    def shift(k):
        p, q = pos.at(k), shifted(vc, box, pos.at(k), by=n)
        return GV(lambda i: S(z3.If(k == which, at(q, i), at(p, i))))

    other = SymSeq(pos.n, shift, name='shifted')
    i = vc.index('gen')
    a = call(vc, box.cs.average, pos)
    b = call(vc, box.cs.average, other)
    prove_period(vc, 'shifting positions by whole periods changes the average by whole periods at most', box, b - a, i)
