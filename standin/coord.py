"""C02 - C06: the coordinate system."""
import itertools

import numpy as np

from .common import case, expect, close, gen_limits, bounds
from .common import gen_pos as gen_float_pos

from nodefinder.coordinate_system import CoordinateSystem


def gen_pos(rng, limits, **kw):
    pos = gen_float_pos(rng, limits, **kw)
    if rng.integers(10) == 0 and np.max(np.abs(pos)) < 1e9:
        # given as integers
        pos = np.round(pos).astype(int)
    return pos


def setup(rng, ctx, exact=None, dims=(1, 5)):
    if exact is None:
        exact = bool(rng.integers(2))
    dim = int(rng.integers(*dims))
    limits = gen_limits(rng, dim, exact=exact)
    if not exact and rng.integers(6) == 0:  # other orders of magnitude
        mag = 10.**rng.integers(-6, 11)
        limits = [(a * mag, b * mag) for a, b in limits]
    periodic = bool(rng.integers(3))
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    lower, upper = bounds(limits)
    ctx.input(limits=limits, periodic=periodic)
    return exact, dim, limits, periodic, cs, lower, upper


def tol_of(lower, upper, *pos):
    """Absolute rounding tolerance per component."""
    scale = np.maximum(np.abs(lower), np.abs(upper))
    for p in pos:
        scale = np.maximum(scale, np.max(np.abs(np.atleast_2d(p)), axis=0))
    return 1e-11 * scale


def whole_periods(delta, size, tol):
    k = np.round(delta / size)
    return bool(np.all(np.abs(delta - k * size) <= tol + 1e-14 * np.abs(k) * size))


def images(delta, size, periodic):
    """Smallest length over all images (reference: per component, the nearest three images)."""
    if not periodic:
        return np.sqrt(np.sum(delta**2, axis=-1))
    base = delta - np.round(delta / size) * size
    cands = np.stack([base - size, base, base + size])
    best = np.min(np.abs(cands), axis=0)
    return np.sqrt(np.sum(best**2, axis=-1))


def reused(rng, ctx, names):
    """A method gives the value for the contents at the time of the call: the
    same arrays, changed in place in between, and one instance."""
    exact, dim, limits, periodic, cs, lower, upper = setup(rng, ctx)
    name = names[int(rng.integers(len(names)))]
    nargs = 2 if name in ('distance', 'connecting_vector') else 1
    n = None if rng.integers(2) else int(rng.integers(1, 4))
    arrays = [gen_pos(rng, limits, exact=exact, n=n if i == nargs - 1 else None) for i in range(nargs)]
    calls = []
    for _ in range(int(rng.integers(2, 5))):
        which = int(rng.integers(nargs))
        if calls:
            arrays[which][...] = gen_pos(rng, limits, exact=exact, n=n if which == nargs - 1 else None)
        calls.append([a.copy() for a in arrays])
        ctx.input(method=name, calls=calls)
        got = np.array(getattr(cs, name)(*arrays))
        fresh = CoordinateSystem(limits=limits, periodic=periodic)
        ref = np.array(getattr(fresh, name)(*[a.copy() for a in arrays]))
        expect(np.array_equal(got, ref), name + ' of the same array with other contents is not that of the contents', result=got, expected=ref)


def gen_number(rng, most):
    """Of positions in a stack; None: one position only."""
    if rng.integers(2):
        return None
    return int(rng.integers(1, most)) if rng.integers(8) else int(rng.choice([100, 700, 2500]))


@case('C02')
def again(rng, ctx):
    reused(rng, ctx, ['get_frac', 'get_pos'])


@case('C02')
def fractional_coordinates(rng, ctx):
    exact, dim, limits, periodic, cs, lower, upper = setup(rng, ctx)
    size = upper - lower
    n = gen_number(rng, 5)
    pos = gen_pos(rng, limits, exact=exact, n=n)
    ctx.input(pos=pos)
    keep = pos.copy()
    frac = np.asarray(cs.get_frac(pos))
    expect(frac.shape == pos.shape, 'shape of fractional coordinates', frac=frac)
    lin = (pos - lower) / size
    tol = tol_of(lower, upper, pos) / size
    if periodic:
        expect(np.all(frac >= 0) and np.all(frac <= 1), 'fractional coordinates outside [0, 1]', frac=frac)
        expect(whole_periods(frac - lin, np.ones(dim), tol), 'fractional coordinates not linear modulo 1', frac=frac, expected=lin % 1)
        if exact:
            expect(np.all(frac == lin % 1), 'fractional coordinates not linear modulo 1 (exact)', frac=frac, expected=lin % 1)
    else:
        expect(np.all(np.abs(frac - lin) <= tol), 'fractional coordinates not linear between the limits', frac=frac, expected=lin)
    back = np.asarray(cs.get_pos(frac))
    expect(back.shape == pos.shape, 'shape of position', back=back)
    if periodic:
        expect(whole_periods(back - pos, size, 4 * tol * size), 'position -> fractional -> position moved the position', back=back)
    else:
        expect(np.all(np.abs(back - pos) <= 4 * tol * size), 'position -> fractional -> position moved the position', back=back)
    expect(np.array_equal(pos, keep), 'the argument was modified', pos=pos)
    # fractional -> position -> fractional
    frac0 = rng.random(pos.shape) if not exact else rng.integers(0, 64, size=pos.shape) / 64.
    if not periodic:
        frac0 = frac0 * 4 - 2
    ctx.input(frac=frac0)
    p = np.asarray(cs.get_pos(frac0))
    expect(np.all(np.abs(p - (lower + frac0 * size)) <= tol_of(lower, upper) * 4), 'position not linear between the limits', position=p)
    f2 = np.asarray(cs.get_frac(p))
    err = f2 - frac0
    tol2 = 8 * tol_of(lower, upper, p) / size
    if periodic:
        expect(whole_periods(err, np.ones(dim), tol2), 'fractional -> position -> fractional changed the value', result=f2)
    else:
        expect(np.all(np.abs(err) <= tol2), 'fractional -> position -> fractional changed the value', result=f2)


@case('C02')
def attributes(rng, ctx):
    exact, dim, limits, periodic, cs, lower, upper = setup(rng, ctx)
    expect(cs.dim == dim and np.allclose(cs.size, upper - lower, rtol=1e-12, atol=0), 'dim/size of the coordinate system', dim=cs.dim, size=cs.size)
    if not periodic:
        expect(np.all(cs.get_frac(lower) == 0) and close(cs.get_frac(upper), np.ones(dim), tol=1e-12),
               'limits do not have fractional coordinates 0 and 1', lower=cs.get_frac(lower), upper=cs.get_frac(upper))


# ------------------------------------------------------------------- C03
@case('C03')
def normalize(rng, ctx):
    exact, dim, limits, periodic, cs, lower, upper = setup(rng, ctx)
    size = upper - lower
    n = gen_number(rng, 5)
    pos = gen_pos(rng, limits, exact=exact, n=n, spread=int(rng.choice([1, 3, 20])))
    ctx.input(pos=pos)
    keep = pos.copy()
    res = np.array(cs.normalize_position(pos))
    expect(res.shape == pos.shape, 'shape', result=res)
    expect(np.array_equal(keep, pos), 'the argument was modified', pos=pos)
    if not periodic:
        expect(np.array_equal(res, pos), 'non-periodic position was changed', result=res)
        return
    tol = tol_of(lower, upper, pos)
    slack = 0 if exact else 4e-16 * np.maximum(np.abs(lower), np.abs(upper))
    expect(np.all(res >= lower - slack) and np.all(res <= upper + slack), 'normalised position outside the box', result=res)
    expect(whole_periods(res - pos, size, 0 if exact else tol), 'not moved by whole periods', result=res, pos=pos)
    again = np.array(cs.normalize_position(res))
    expect(whole_periods(again - res, size, 0 if exact else tol), 'normalising twice is different', once=res, twice=again)
    if exact:
        expect(np.array_equal(again, res), 'normalising twice is different (exact)', once=res, twice=again)
        # a position strictly inside is not moved
    inside = lower + rng.integers(0, 32, size=(dim, )) / 32. * size if exact else lower + rng.uniform(.01, .99, size=dim) * size
    out = np.array(cs.normalize_position(inside))
    expect(np.all(np.abs(out - inside) <= (0 if exact else tol_of(lower, upper))), 'a position inside the box was moved', inside=inside, result=out)


@case('C03')
def normalize_again(rng, ctx):
    reused(rng, ctx, ['normalize_position'])


# ------------------------------------------------------------------- C04
@case('C04')
def distance_again(rng, ctx):
    reused(rng, ctx, ['distance'])


@case('C04')
def distance(rng, ctx):
    exact, dim, limits, periodic, cs, lower, upper = setup(rng, ctx)
    size = upper - lower
    a = gen_pos(rng, limits, exact=exact)
    n = gen_number(rng, 6)
    b = gen_pos(rng, limits, exact=exact, n=n)
    ctx.input(pos1=a, pos2=b)
    a0, b0 = a.copy(), b.copy()
    res = np.asarray(cs.distance(a, b))
    expect(res.shape == (() if n is None else (n, )), 'shape of the distance', result=res)
    tol = 4 * np.linalg.norm(tol_of(lower, upper, a, b))
    ref = images(b - a, size, periodic)
    expect(np.all(res >= 0), 'negative distance', result=res)
    expect(np.all(np.abs(res - ref) <= tol), 'not the smallest length over all images', result=res, expected=ref)
    rev = np.asarray(cs.distance(b, a))
    expect(np.all(np.abs(res - rev) <= tol), 'not symmetric', result=res, reverse=rev)
    if n is not None:
        some = slice(None, 20)
        single = np.array([cs.distance(a, x) for x in b[some]])
        expect(np.all(np.abs(res[some] - single) <= tol), 'stack differs from single distances', stack=res, single=single)
    if periodic:
        shift = rng.integers(-3, 4, size=dim) * size
        s1 = np.asarray(cs.distance(a + shift, b))
        s2 = np.asarray(cs.distance(a, b + shift))
        expect(np.all(np.abs(res - s1) <= 4 * tol) and np.all(np.abs(res - s2) <= 4 * tol),
               'changed by a whole-period shift', shift=shift, result=res, first=s1, second=s2)
    expect(np.array_equal(a, a0) and np.array_equal(b, b0), 'arguments modified')


# ------------------------------------------------------------------- C05
@case('C05')
def connecting_vector_again(rng, ctx):
    reused(rng, ctx, ['connecting_vector'])


@case('C05')
def connecting_vector(rng, ctx):
    exact, dim, limits, periodic, cs, lower, upper = setup(rng, ctx)
    size = upper - lower
    a = gen_pos(rng, limits, exact=exact)
    n = gen_number(rng, 6)
    b = gen_pos(rng, limits, exact=exact, n=n)
    if rng.integers(5) == 0:
        b = b * 0 + a  # identical
    ctx.input(pos1=a, pos2=b)
    a0, b0 = a.copy(), b.copy()
    vec = np.asarray(cs.connecting_vector(a, b))
    expect(vec.shape == b.shape, 'shape', result=vec)
    tol = 4 * tol_of(lower, upper, a, b)
    if periodic:
        expect(whole_periods(a + vec - b, size, tol), 'does not lead to the second position', result=vec)
    else:
        expect(np.all(np.abs(a + vec - b) <= tol), 'does not lead to the second position', result=vec)
    length = np.sqrt(np.sum(vec**2, axis=-1))
    ref = images(b - a, size, periodic)
    expect(np.all(np.abs(length - ref) <= 4 * np.linalg.norm(tol)), 'is not a shortest vector', result=vec, length=length, shortest=ref)
    dist = np.asarray(cs.distance(a, b))
    expect(np.all(np.abs(length - dist) <= 4 * np.linalg.norm(tol)), 'length differs from the distance', length=length, distance=dist)
    if n is not None:
        some = b[:20]
        back = np.asarray(cs.connecting_vector(some, a))
        expect(back.shape == some.shape, 'shape', first_a_stack=back)
        if periodic:
            expect(whole_periods(some + back - a, size, tol), 'from a stack of positions: does not lead to the second position', result=back)
        else:
            expect(np.all(np.abs(some + back - a) <= tol), 'from a stack of positions: does not lead to the second position', result=back)
        vec = vec[:20]
        single = np.array([cs.connecting_vector(a, x) for x in some])
        expect(np.all(np.abs(np.sum(single**2, axis=-1) - np.sum(vec**2, axis=-1)) <= 1e-9 * np.sum(size**2) + 1e-9 * np.sum(vec**2, axis=-1)),
               'stack differs from single vectors', stack=vec, single=single)
    expect(np.array_equal(a, a0) and np.array_equal(b, b0), 'arguments modified')


# ------------------------------------------------------------------- C06
@case('C06')
def average(rng, ctx):
    exact, dim, limits, periodic, cs, lower, upper = setup(rng, ctx)
    size = upper - lower
    n = int(rng.integers(1, 7)) if rng.integers(8) else int(rng.choice([rng.integers(7, 300), 600, 1500]))
    if rng.integers(2):
        # close to each other, possibly across the boundary
        center = gen_pos(rng, limits, exact=exact)
        pos = center + rng.uniform(-.2, .2, size=(n, dim)) * size
        if periodic:
            pos = pos + rng.integers(-2, 3, size=(n, dim)) * size
    else:
        pos = gen_pos(rng, limits, exact=False, n=n)
    pos = [np.array(p) for p in pos]
    ctx.input(positions=pos)
    keep = [p.copy() for p in pos]
    res = np.asarray(cs.average(pos))
    expect(res.shape == (dim, ), 'shape', result=res)
    tol = 10 * tol_of(lower, upper, np.array(pos))
    if not periodic:
        ref = np.sum(pos, axis=0) / n
        expect(np.all(np.abs(res - ref) <= tol), 'not the arithmetic mean', result=res, expected=ref)
    else:
        slack = 4e-16 * np.maximum(np.abs(lower), np.abs(upper))
        expect(np.all(res >= lower - slack) and np.all(res <= upper + slack), 'outside the box', result=res)
        deltas = np.array(pos) - pos[0]
        red = deltas / size - np.round(deltas / size)
        if np.any(np.abs(np.abs(red) - .5) < 1e-6):
            ctx.trivial()
            return  # two shortest vectors
        ref = pos[0] + np.sum(red * size, axis=0) / n
        expect(whole_periods(res - ref, size, tol), 'not the first position plus the mean of the shortest vectors', result=res, expected=ref)
        shifted = [p + rng.integers(-2, 3, size=dim) * size for p in pos]
        res2 = np.asarray(cs.average(shifted))
        expect(whole_periods(res2 - res, size, 10 * tol), 'changed by whole-period shifts', result=res, shifted=res2)
    expect(all(np.array_equal(a, b) for a, b in zip(pos, keep)), 'arguments modified')
