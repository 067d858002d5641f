"""C18: the initial mesh; C19: refinement stencils."""
import itertools

import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.seq import SymSeq, Product, Independent, Spread, Mixed
from pyvc.shims import Arr, SymRows, raw
from . import spec
from .coord import call

MESH = 'nodefinder.search._mesh_helper'
STEN = 'nodefinder.search.refinement_stencil'
FUN18 = [MESH + '._generate_mesh_simplices']


def box(vc, dim):
    limits = []
    for _ in range(dim):
        low, up = vc.real('low'), vc.real('up')
        vc.assume(low < up)
        limits.append((low, up))
    return limits


def same_points(got, want):
    """The rows are the expected points, in some order."""
    eq = lambda p, q: z3.And([to_real(lift(a)) == to_real(lift(b)) for a, b in zip(p, q)])
    n = len(want)
    first = z3.And([eq(g, w) for g, w in zip(got, want)])
    if z3.is_true(z3.simplify(first)) or core.cur().entails(first):
        return z3.BoolVal(True)
    return z3.Or([z3.And([eq(got[k], want[p]) for k, p in enumerate(perm)]) for perm in itertools.permutations(range(n))])


def simplex_at(point, edges):
    return [list(point)] + [[x + (e if i == j else 0) for j, x in enumerate(point)] for i, e in enumerate(edges)]


def rows(simplex, dim):
    """The vertices, or None if the shape is wrong."""
    a = raw(simplex)
    if not isinstance(a, numpy.ndarray) or a.shape != (dim + 1, dim):
        return None
    return [list(r) for r in a]


SAMPLES = [(z3.Q(7 * k + 3, 2), z3.Q(101 + 13 * k, 3)) for k in range(6)]


def sample(limits, simplex):
    """The simplex for some limits, to find out which one it is."""
    subs = [(lift(x), v) for lim, vals in zip(limits, SAMPLES) for x, v in zip(lim, vals)]
    res = []
    for r in simplex:
        e = [z3.simplify(z3.substitute(to_real(lift(x)), *subs)) for x in r]
        if not all(z3.is_rational_value(x) for x in e):
            return None
        res.append(tuple(x.as_fraction() for x in e))
    return tuple(sorted(res))


def sizes_small(sizes):
    """All limits, for some numbers of mesh points."""

    def check(vc):
        vc.object_arrays = True
        dim = len(sizes)
        limits = box(vc, dim)
        periodic = vc.choose('periodic')
        fun = load.Loader().get(MESH, '_generate_mesh_simplices')
        res = call(vc, fun, limits=tuple(limits) if vc.choose('tuple') else Arr(limits), mesh_size=tuple(sizes), periodic=periodic)
        edges = [(up - low) / (2 * m) for (low, up), m in zip(limits, sizes)]
        axes = [[low + (up - low) * k / (m if periodic else max(m - 1, 1)) for k in range(m)] for (low, up), m in zip(limits, sizes)]
        want = [simplex_at(p, edges) for p in itertools.product(*axes)]
        res = list(res)
        if not vc.prove('one simplex for each mesh point', z3.BoolVal(len(res) == len(want))):
            return
        got = [rows(x, dim) for x in res]
        if not vc.prove('a simplex has one vertex more than dimensions', z3.BoolVal(all(g is not None for g in got))):
            return
        # which simplex is which: looked up for some limits, proved for all
        keys = [sample(limits, w) for w in want]
        left = list(range(len(want)))
        for g in got:
            k = sample(limits, g)
            if k is None:
                raise core.Unsupported('mesh points which depend on more than the limits')
            match = [n for n in left if keys[n] == k]
            if not vc.prove('every simplex is the one of a different mesh point', z3.BoolVal(bool(match))):
                return
            left.remove(match[0])
            vc.prove('its vertices are the mesh point and that point moved by half of the box size divided by the number of mesh points in each dimension', same_points(g, want[match[0]]))

    return check


for _sizes in ((1, ), (2, ), (3, ), (5, ), (1, 1), (2, 3), (3, 1), (2, 1, 2), (1, 2, 1, 2)):
    spec('C18', name='mesh_{}'.format('x'.join(map(str, _sizes))), functions=FUN18, seconds=60, scope='any limits, mesh size {}'.format(_sizes))(sizes_small(_sizes))


def product_of(vc, res, dim):
    """The result as one element for each tuple of indices."""
    if not isinstance(res, Product) or len(res.factors) != dim:
        raise core.Unsupported('the mesh is not built from the product of the points in each dimension')
    return res


def any_size(dim):

    def check(vc):
        vc.object_arrays = True
        limits = box(vc, dim)
        sizes = [vc.int('mesh', low=1) for _ in range(dim)]
        periodic = vc.choose('periodic')
        fun = load.Loader().get(MESH, '_generate_mesh_simplices')
        res = call(vc, fun, limits=tuple(limits), mesh_size=tuple(sizes), periodic=periodic)
        res = product_of(vc, res, dim)
        vc.coupled = 'the sequence of the mesh points'
        for f, m in zip(res.factors, sizes):
            vc.prove('there are as many points in each dimension as requested', z3.And(lift(f._vc_len()) == m.e))
        ks = [vc.fresh_expr(z3.IntSort(), 'k') for _ in range(dim)]
        for k, m in zip(ks, sizes):
            vc.fact(k >= 0, k < m.e)
        vc.prove('there is a simplex for every mesh point', res.selected(ks))
        got = rows(res.at(ks), dim)
        if not vc.prove('a simplex has one vertex more than dimensions', z3.BoolVal(got is not None)):
            return
        edges, point = [], []
        for (low, up), m, k in zip(limits, sizes, ks):
            n = m if periodic else m - 1
            step, edge = vc.real('step'), vc.real('edge')
            vc.fact(z3.Implies(n.e > 0, (step * n).e == (up - low).e), z3.Implies(n.e <= 0, step.e == 0), (edge * (2 * m)).e == (up - low).e)
            point.append(low + k_real(k) * step)
            edges.append(edge)
        vc.prove('its vertices are the mesh point and that point moved by half of the box size divided by the number of mesh points in each dimension', same_points(got, simplex_at(point, edges)))
        vc.prove('the mesh starts at the lower limit', z3.And([z3.Implies(k == 0, lift(p) == lift(low)) for k, p, (low, up) in zip(ks, point, limits)]))
        vc.prove('the upper limit is included if and only if the box is not periodic', z3.And([
            z3.Implies(k == m.e - 1, lift(p) < lift(up)) if periodic else z3.Implies(z3.And(k == m.e - 1, m.e > 1), lift(p) == lift(up)) for k, p, (low, up), m in zip(ks, point, limits, sizes)]))

    return check


def k_real(k):
    return S(z3.ToReal(k))


for _dim in (1, 2, 3, 4):
    spec('C18', name='mesh_any_size_{}d'.format(_dim), functions=FUN18, seconds=90, trusted=['contract of itertools.product: one element for each tuple of indices', 'contract of numpy.linspace'],
         scope='dimension {}, any limits and any numbers of mesh points'.format(_dim))(any_size(_dim))


@spec('C18', functions=FUN18, seconds=30, scope='dimension up to 4')
def wrong_dimension(vc):
    dim = 1 + vc.pick(4)
    n = vc.pick(6)
    if n == dim:
        raise core.PathEnd()
    fun = load.Loader().get(MESH, '_generate_mesh_simplices')
    try:
        fun(limits=tuple(box(vc, dim)), mesh_size=tuple(vc.int('mesh', low=1) for _ in range(n)), periodic=vc.choose('periodic'))
    except ValueError:
        vc.prove('ValueError for a mesh size which does not match', z3.BoolVal(True))
    else:
        vc.fail('ValueError for a mesh size which does not match')


# ----------------------------------------------------------------------- C19
FUN19 = [STEN + '.' + n for n in ('get_mesh_stencil', 'get_auto_stencil', 'get_circle_stencil', 'get_sphere_stencil', '_fibonacci_sphere_points')]
SMALL = z3.Q(1, 10**6)


def mesh_small(sizes):

    def check(vc):
        vc.object_arrays = True
        dim = len(sizes)
        mult = vc.real('multiplier')
        vc.assume(mult > S(SMALL) * 10)
        fun = load.Loader().get(STEN, 'get_mesh_stencil')
        res = call(vc, fun, mesh_size=list(sizes), dist_multiplier=mult)
        axes = [[-mult + 2 * mult * k / max(m - 1, 1) for k in range(m)] for m in sizes]
        middle = [(m - 1) / 2 if m > 1 else None for m in sizes]
        edges = [mult / m for m in sizes]
        ks = [k for k in itertools.product(*[range(m) for m in sizes]) if list(k) != middle]
        want = [simplex_at([a[i] for a, i in zip(axes, k)], edges) for k in ks]
        a = raw(res)
        if not vc.prove('an array with one simplex for each mesh point other than the origin', z3.BoolVal(isinstance(a, numpy.ndarray) and a.shape == (len(want), dim + 1, dim))):
            return
        limits = [(-mult, mult)]
        keys = [sample(limits[:0], [[S(z3.substitute(to_real(lift(x)), (mult.e, z3.Q(17, 3)))) for x in r] for r in w]) for w in want]
        left = list(range(len(want)))
        for g in a:
            g = [list(r) for r in g]
            k = sample(limits[:0], [[S(z3.substitute(to_real(lift(x)), (mult.e, z3.Q(17, 3)))) for x in r] for r in g])
            match = [n for n in left if keys[n] == k]
            if not vc.prove('every simplex is the axis-aligned one of a different mesh point', z3.BoolVal(bool(match))):
                return
            left.remove(match[0])
            vc.prove('its vertices are the mesh point and that point moved along one axis', same_points(g, want[match[0]]))

    return check


for _sizes in ((2, ), (3, ), (4, ), (2, 2), (3, 3), (2, 3), (1, 3), (3, 2, 3), (2, 2, 2)):
    spec('C19', name='mesh_stencil_{}'.format('x'.join(map(str, _sizes))), functions=FUN19[:1] + FUN18, seconds=60, scope='mesh size {}, any multiplier of at least 0.00001'.format(_sizes))(mesh_small(_sizes))


def mesh_any(dim, rounding=False):

    def check(vc):
        vc.object_arrays = True
        mult = vc.real('multiplier')
        vc.assume(mult > 0)
        sizes = [vc.int('mesh', low=1) for _ in range(dim)]
        fun = load.Loader().get(STEN, 'get_mesh_stencil')
        if rounding:
            # the points of linspace are not exact
            error = vc.linspace_error = vc.real('error').e
            vc.fact(error >= 0, error <= z3.Q(1, 10**9))
        steps = []
        for m in sizes:
            step = vc.real('step')
            vc.fact(z3.Implies(m.e > 1, (step * (m - 1)).e == 2 * mult.e), z3.Implies(m.e == 1, step.e == 1))
            vc.fact(z3.Implies(m.e > 1, step.e > SMALL), mult.e > SMALL)
            steps.append(step)
        res = product_of(vc, call(vc, fun, mesh_size=list(sizes), dist_multiplier=mult), dim)
        vc.coupled = 'the sequence of the mesh points'
        for f, m in zip(res.factors, sizes):
            vc.prove('there are as many points in each dimension as requested', z3.And(lift(f._vc_len()) == m.e))
        ks = [vc.fresh_expr(z3.IntSort(), 'k') for _ in range(dim)]
        for k, m in zip(ks, sizes):
            vc.fact(k >= 0, k < m.e)
        point = []
        lemma = vc.lemma('mesh point', 4, lambda k, m, step, mult: ([step * (m - 1) == 2 * mult], 2 * (k * step - mult) == (2 * k - (m - 1)) * step))
        for k, m, step in zip(ks, sizes, steps):
            x = vc.real('x')
            # x = -mult + k step = (2 k - (m - 1)) step / 2
            vc.fact(x.e == -mult.e + (k_real(k) * step).e)
            lemma(k_real(k), k_real(m.e), step, mult)
            vc.prove('coordinates of a mesh point', z3.And(z3.Implies(m.e > 1, 2 * x.e == (S(z3.ToReal(2 * k - (m.e - 1))) * step).e), z3.Implies(m.e == 1, x.e == -mult.e)))
            vc.fact(z3.Implies(m.e > 1, 2 * x.e == (S(z3.ToReal(2 * k - (m.e - 1))) * step).e), z3.Implies(m.e == 1, x.e == -mult.e))
            n = 2 * k - (m.e - 1)
            vc.multiple(step.e, n)
            point.append(x)
        origin = z3.And([2 * k == m.e - 1 for k, m in zip(ks, sizes)] + [m.e > 1 for m in sizes])
        got = rows(res.at(ks), dim)
        if not vc.prove('a simplex has one vertex more than dimensions', z3.BoolVal(got is not None)):
            return
        for x, g in zip(point, got[0]):
            near = z3.And(lift(g) - x.e <= error, x.e - lift(g) <= error) if rounding else lift(g) == x.e
            vc.prove('a simplex starts at its mesh point', near)
            vc.fact(near)
        vc.prove('there is a simplex for every mesh point other than the origin', z3.Implies(z3.Not(origin), res.selected(ks)))
        vc.prove('there is none for the origin', z3.Implies(origin, z3.Not(res.selected(ks))))
        if rounding:
            return
        edges = []
        for m in sizes:
            edge = vc.real('edge')
            vc.fact((edge * m).e == mult.e)
            edges.append(edge)
        vc.prove('the others vertices are that point moved along one axis', same_points(got, simplex_at([S(lift(g)) for g in got[0]], edges)))
        vc.prove('no simplex is degenerate', z3.And([e.e != 0 for e in edges]))

    return check


for _dim in (1, 2, 3):
    spec('C19', name='mesh_stencil_any_{}d'.format(_dim), functions=FUN19[:1] + FUN18, seconds=90, trusted=['contract of itertools.product: one element for each tuple of indices', 'contract of numpy.linspace'],
         scope='dimension {}, any mesh size whose spacing is larger than 0.000001'.format(_dim))(mesh_any(_dim))


for _dim in (1, 2, 3):
    spec('C19', name='mesh_stencil_rounded_{}d'.format(_dim), functions=FUN19[:1] + FUN18, seconds=90, trusted=['contract of itertools.product: one element for each tuple of indices', 'contract of numpy.linspace: the points of an equidistant mesh, with an error of at most 1e-9'],
         scope='dimension {}, any number of points, neighbours at least 0.000001 apart'.format(_dim))(mesh_any(_dim, True))


def pair(vc, n):
    """One or two different arbitrary indices below n."""
    ks = [vc.fresh_expr(z3.IntSort(), 'k') for _ in range(1 + int(vc.choose('two')))]
    for k in ks:
        vc.fact(k >= 0, k < lift(n))
    if len(ks) == 2:
        vc.fact(ks[0] != ks[1])
    return ks


def independent(vc, indices):

    def contract(lid, loc, names, seq):
        if not isinstance(seq, SymSeq):
            return None
        vc.coupled = 'the loop over the points'
        return Independent(indices)

    vc.loops[contract] = None


def collected(vc, res, indices, n):
    """The elements with these indices of an array built in a loop."""
    if isinstance(res, SymRows):
        if len(res.rows) != len(indices) or any(not z3.eq(lift(k), i) for (k, _), i in zip(res.rows, indices)):
            raise core.Unsupported('other rows are set')
        vc.prove('the number of elements is the requested one', z3.And(lift(res.n) == lift(n)))
        return [r for _, r in res.rows]
    if isinstance(res, (Mixed, list)):
        items = res.items if isinstance(res, Mixed) else res
        if len(items) == 1 and isinstance(items[0], Spread):
            res = items[0].seq
    if isinstance(res, SymSeq) and res.cond is None:
        vc.prove('the number of elements is the requested one', z3.And(res.n == lift(n)))
        return [res.at(k) for k in indices]
    raise core.Unsupported('the result is not built in a loop')


def vec(p):
    return [to_real(lift(x)) for x in p]


def dot(p, q):
    return z3.Sum([a * b for a, b in zip(p, q)])


def minus(p, q):
    return [a - b for a, b in zip(p, q)]


@spec('C19', functions=FUN19[2:3], seconds=120, timeout=20000, scope='any number of points', expected=['the number of elements is the requested one', 'all simplices have the same edge lengths', 'all simplices have the same vertex distances from the origin', 'no simplex is degenerate', 'the simplices are distinct'])
def circle_stencil(vc):
    vc.object_arrays = True
    vc.auto_lemmas = False
    n = vc.int('num_points', low=1)
    indices = pair(vc, n)
    independent(vc, indices)
    fun = load.Loader().get(STEN, 'get_circle_stencil')
    res = call(vc, fun, num_points=n)
    sims = [rows(x, 2) for x in collected(vc, res, indices, n)]
    if not vc.prove('a simplex has three vertices', z3.BoolVal(all(g is not None for g in sims))):
        return
    sims = [[vec(p) for p in s] for s in sims]
    trigs = [v for k, v in vc.memo.items() if k[0] == 'trig']
    if len(trigs) != len(sims):
        raise core.Unsupported('several angles for a simplex')
    # the simplices turned back: the same for all
    back = [[[c * p[0] + s * p[1], c * p[1] - s * p[0]] for p in sim] for sim, (c, s, _) in zip(sims, trigs)]
    names = []
    turn = vc.lemma('a rotation keeps lengths', 6, lambda c, s, a, b, d, e: (
        [c * c + s * s == 1], (c * a + s * b - (c * d + s * e)) * (c * a + s * b - (c * d + s * e)) + (c * b - s * a - (c * e - s * d)) * (c * b - s * a - (c * e - s * d)) == (a - d) * (a - d) + (b - e) * (b - e)))
    area = vc.lemma('a rotation keeps areas', 6, lambda c, s, a, b, d, e: ([c * c + s * s == 1], (c * a + s * b) * (c * e - s * d) - (c * b - s * a) * (c * d + s * e) == a * e - b * d))
    fwd = vc.lemma('turning back', 4, lambda c, s, a, b: ([c * c + s * s == 1], z3.And(c * (c * a - s * b) + s * (s * a + c * b) == a, c * (s * a + c * b) - s * (c * a - s * b) == b)))
    scale = [f for f in vc.facts if not any(str(vc.atom_cache[a][1]).startswith(('cos', 'sin')) for a in vc.atoms(f))]
    for sim, bk, (c, s, _) in zip(sims, back, trigs):
        # which simplex is it the image of? taken from the code for an angle of zero
        zero = [[z3.simplify(z3.substitute(x, (c, z3.RealVal(1)), (s, z3.RealVal(0)))) for x in p] for p in sim]
        names.append(zero)
        for p, z in zip(sim, zero):
            fwd(S(c), S(s), S(z[0]), S(z[1]))
    ref = names[0]
    for zero in names:
        vc.prove('every simplex is the same one, turned', z3.And([a == b for p, r in zip(zero, ref) for a, b in zip(p, r)]))
    known = [c * c + s * s == 1 for c, s, _ in trigs]
    for sim, bk, zero in zip(sims, back, names):
        for p, z in zip(bk, zero):
            vc.prove('every simplex is turned by its angle', z3.And([a == b for a, b in zip(p, z)]))
            vc.fact(*[a == b for a, b in zip(p, z)])
            known.extend(vc.facts[-2:])
    for sim, (c, s, _), zero in zip(sims, trigs, names):
        for p, r in itertools.combinations(range(4), 2):
            pts = sim + [[z3.RealVal(0)] * 2]
            zs = zero + [[z3.RealVal(0)] * 2]
            turn(*[S(x) for x in [c, s] + pts[p] + pts[r]])
            d, z = minus(pts[p], pts[r]), minus(zs[p], zs[r])
            vc.prove('all simplices have the same edge lengths' if r < 3 else 'all simplices have the same vertex distances from the origin', dot(d, d) == dot(z, z), using=known + vc.facts[-1:])
            vc.fact(dot(d, d) == dot(z, z))
        a, b = minus(sim[1], sim[0]), minus(sim[2], sim[0])
        area(*[S(x) for x in [c, s] + a + b])
        za, zb = minus(zero[1], zero[0]), minus(zero[2], zero[0])
        vc.prove('no simplex is degenerate', z3.And(a[0] * b[1] - a[1] * b[0] == za[0] * zb[1] - za[1] * zb[0], za[0] * zb[1] - za[1] * zb[0] != 0), using=known + scale + vc.facts[-1:])
    if len(sims) == 2:
        first = sims[1][0]
        differ = lambda p: z3.Or([a != b for a, b in zip(first, p)])
        unlike = [f for f in vc.facts if z3.is_implies(f) and vc.atoms(f) & vc.atoms(trigs[0][0]) and vc.atoms(f) & vc.atoms(trigs[1][0])]
        angles = [f for f in vc.facts if not vc.atoms(f) & frozenset().union(*[vc.atoms(c) | vc.atoms(s) for c, s, _ in trigs])]
        turn_ = core.real_of(2 * numpy.pi)
        lemma = vc.lemma('different multiples', 3, lambda k, m, x: ([k - m != 0, x > 0], k * x != m * x))
        within = vc.lemma('multiples within one turn', 4, lambda k, n, x, t: ([k >= 0, k <= n - 1, x > 0, n * x == t], z3.And(k * x >= 0, k * x < t)))
        steps = [vc.atom_cache[a][1] for a in vc.atoms(trigs[0][2]) if str(vc.atom_cache[a][1]).startswith('step')]
        for step in steps:
            lemma(*[S(z3.ToReal(k)) for k in indices], S(step))
            for k in indices:
                within(S(z3.ToReal(k)), S(z3.ToReal(lift(n))), S(step), S(turn_))
        angles += [f for f in vc.facts[-3 * len(steps):] if f not in angles]
        for (_, _, e) in trigs:
            vc.prove('the angles lie within one turn', z3.And(e >= 0, e < turn_), using=angles)
            vc.fact(z3.And(e >= 0, e < turn_))
        vc.prove('the angles are different', trigs[0][2] != trigs[1][2], using=angles)
        facts = [z3.And(e >= 0, e < turn_) for _, _, e in trigs] + [trigs[0][2] != trigs[1][2]]
        vc.prove('the simplices are distinct', differ(sims[0][0]), using=unlike + facts)
        z0 = dot(names[1][0], names[1][0])
        for p, z in zip(sims[0][1:], names[0][1:]):
            far = dot(z, z) != z0
            if vc.hint(far):
                vc.prove('the simplices are distinct', differ(p), using=[far, dot(p, p) == dot(z, z), dot(first, first) == z0], naming=[z0, dot(z, z)] + first + p)
            else:
                vc.prove('the simplices are distinct', differ(p))


@spec('C19', functions=FUN19[4:], seconds=60, scope='any number of points', expected=['the number of elements is the requested one', 'the points lie on the unit sphere', 'the points are distinct'])
def sphere_points(vc):
    vc.object_arrays = True
    vc.auto_lemmas = False
    n = vc.int('num_points', low=1)
    indices = pair(vc, n)
    independent(vc, indices)
    fun = load.Loader().get(STEN, '_fibonacci_sphere_points')
    # z = (i + 0.5) * offset - 1 lies between -1 and 1
    bound = vc.lemma('heights', 3, lambda i, n, x: ([i >= 0, i <= n - 1, x * n == 2], z3.And((i + 0.5) * x - 1 > -1, (i + 0.5) * x - 1 < 1)))
    square = vc.lemma('squares below one', 1, lambda z: ([z > -1, z < 1], 1 - z * z > 0))
    other = vc.lemma('different heights', 4, lambda i, j, n, x: ([i - j != 0, n >= 1, x * n == 2], (i + 0.5) * x - 1 != (j + 0.5) * x - 1))
    offset = core.divide(z3.RealVal(2), z3.ToReal(n.e))
    for k in indices:
        bound(k_real(k), k_real(n.e), S(offset))
        square(S((z3.ToReal(k) + z3.Q(1, 2)) * offset - 1))
    if len(indices) == 2:
        other(*[k_real(k) for k in indices], k_real(n.e), S(offset))
    res = call(vc, fun, n)
    got = collected(vc, res, indices, n)
    if not vc.prove('every point has three coordinates', z3.BoolVal(all(numpy.shape(raw(p)) == (3, ) for p in got))):
        return
    got = [vec(p) for p in got]
    trigs = [v for k, v in vc.memo.items() if k[0] == 'trig']
    roots = {k: v for k, v in vc.memo.items() if k[0] == 'sqrt'}
    unit = vc.lemma('polar coordinates', 4, lambda c, s, r, z: ([c * c + s * s == 1, r * r == 1 - z * z], c * r * (c * r) + s * r * (s * r) + z * z == 1))
    for p in got:
        for c, s, _ in trigs:
            for r, _ in roots.values():
                unit(S(c), S(s), S(r), S(p[2]))
        vc.prove('the points lie on the unit sphere', dot(p, p) == 1)
    if len(got) == 2:
        vc.prove('the points are distinct', z3.Or([a != b for a, b in zip(*got)]))


@spec('C19', functions=FUN19[3:4], seconds=200, timeout=20000, scope='any number of points', trusted=['contract of the points on the sphere (sphere_points)'],
      expected=['the number of elements is the requested one', 'all simplices have the same edge lengths', 'all simplices have the same vertex distances from the origin', 'no simplex is degenerate', 'the simplices are distinct'])
def sphere_stencil(vc):
    vc.object_arrays = True
    vc.auto_lemmas = False
    n = vc.int('num_points', low=1)
    indices = pair(vc, n)
    independent(vc, indices)
    loader = load.Loader()
    fun = loader.get(STEN, 'get_sphere_stencil')
    mod = loader.load(STEN)
    if not hasattr(mod, '_fibonacci_sphere_points'):
        raise core.Unsupported('other points')
    points = {}
    calls = []

    def pos(k):
        for i in indices:
            if z3.eq(i, k):
                if id(i) not in points:
                    p = [vc.fresh_expr(z3.RealSort(), 'p') for _ in range(3)]
                    vc.fact(dot(p, p) == 1)
                    for q in points.values():
                        vc.fact(z3.Or([a != b for a, b in zip(p, q)]))
                    points[id(i)] = p
                return Arr([S(x) for x in points[id(i)]])
        raise core.Unsupported('other points')

    def stub(num):
        vc.prove('the requested number of points on the sphere', z3.And(lift(num) == n.e))
        calls.append(num)
        return SymSeq(lift(num), pos, name='points')

    mod._fibonacci_sphere_points = stub
    res = call(vc, fun, num_points=n)
    sims = [rows(x, 3) for x in collected(vc, res, indices, n)]
    if not vc.prove('a simplex has four vertices', z3.BoolVal(all(g is not None for g in sims))):
        return
    sims = [[vec(p) for p in s] for s in sims]
    qrs = [v for k, v in vc.memo.items() if k[0] == 'qr']
    if len(qrs) != len(sims):
        raise core.Unsupported('several rotations for a simplex')
    orth = vc.lemma('an orthogonal matrix keeps lengths', 12, orthogonal)
    radius = vc.lemma('length of the column', 7, lambda r, a, b, c, x, y, z: ([a * a + b * b + c * c == 1, r * a == x, r * b == y, r * c == z], r * r == x * x + y * y + z * z))
    positive = vc.lemma('a root of a positive number', 2, lambda r, x: ([r * r == x * x, x > 0], z3.If(r > 0, r == x, r == -x)))
    zs, images = [], []
    for n_, (sim, (q, r, mat)) in enumerate(zip(sims, qrs)):
        q, r = [vec(row) for row in raw(q)], vec(raw(r)[0])[0]
        col = [to_real(lift(x)) for x in raw(mat)[:, 0]]
        unit = points[id(indices[n_])]
        first = [z3.simplify(z3.substitute(c, *[(u, z3.RealVal(v)) for u, v in zip(unit, (1, 0, 0))])) for c in col]
        rho = first[0]
        if not all(z3.is_rational_value(x) for x in first) or rho.as_fraction() <= 0 or any(x.as_fraction() for x in first[1:]):
            raise core.Unsupported('other columns')
        radius(*[S(x) for x in [r] + [row[0] for row in q] + col])
        vc.prove('the points have the same length', r * r == rho * rho)
        vc.fact(r * r == rho * rho)
        positive(S(r), S(rho))
        up = vc.choose('sign')
        vc.fact(r > 0 if up else r <= 0)
        vc.prove('first column of the matrix', r == (rho if up else -rho))
        vc.fact(r == (rho if up else -rho))
        sign = lift(shims.NP.sign(S(r)))
        one = z3.RealVal(1 if up else -1)
        vc.prove('sign', sign == one)
        turned = [[one * x for x in row] for row in q]
        plain = [[z3.substitute(x, (sign, one)) for x in p] for p in sim]
        # the simplex it is the image of: for the identity
        subs = [(q[i][j], one if i == j else z3.RealVal(0)) for i in range(3) for j in range(3)] + [(u, v) for u, v in zip(unit, (z3.RealVal(1), z3.RealVal(0), z3.RealVal(0)))]
        z = [[z3.simplify(z3.substitute(x, *subs)) for x in p] for p in plain]
        zs.append(z)
        known = [r * row[0] == c for row, c in zip(q, col)] + [r == one * rho]
        for row, c in zip(q, col):
            vc.prove('first column of the matrix', r * row[0] == c)
        for p, image in zip(plain, z):
            for i in range(3):
                vc.prove('every simplex is the same one, turned', p[i] == z3.Sum([a * b for a, b in zip(turned[i], image)]), using=known)
                vc.fact(p[i] == z3.Sum([a * b for a, b in zip(turned[i], image)]))
        images.append((plain, turned, q))
    for z in zs:
        vc.prove('every simplex is the same one, turned', z3.And([a == b for p, t in zip(z, zs[0]) for a, b in zip(p, t)]))
    for (plain, turned, q), z in zip(images, zs):
        relations = orthogonal(*(turned[0] + turned[1] + turned[2] + turned[0]))[0]
        for rel in relations:
            vc.prove('the rotation is orthogonal', rel, using=orthogonal(*(q[0] + q[1] + q[2] + q[0]))[0])
        for a, b in itertools.combinations(range(5), 2):
            pts, ims = plain + [[z3.RealVal(0)] * 3], z + [[z3.RealVal(0)] * 3]
            d, w = minus(pts[a], pts[b]), minus(ims[a], ims[b])
            orth(*[S(x) for x in turned[0] + turned[1] + turned[2] + w])
            inst = vc.facts[-1]
            image = [z3.Sum([x * y for x, y in zip(row, w)]) for row in turned]
            for i in range(3):
                vc.prove('edges are turned edges', d[i] == image[i], using=[pts[k][i] == z3.Sum([x * y for x, y in zip(turned[i], ims[k])]) for k in (a, b)], naming=pts[a][:3] + pts[b][:3] if b < 4 else pts[a])
            vc.prove('all simplices have the same edge lengths' if b < 4 else 'all simplices have the same vertex distances from the origin', dot(d, d) == dot(w, w),
                     using=[x == y for x, y in zip(d, image)] + relations + [inst], naming=image + d)
        # a vanishing combination of the edges
        alpha = [vc.real('alpha').e for _ in range(3)]
        comb = [z3.Sum([x * (plain[k + 1][i] - plain[0][i]) for k, x in enumerate(alpha)]) for i in range(3)]
        w = [z3.Sum([x * (z[k + 1][i] - z[0][i]) for k, x in enumerate(alpha)]) for i in range(3)]
        orth(*[S(x) for x in turned[0] + turned[1] + turned[2] + w])
        inst = vc.facts[-1]
        image = [z3.Sum([x * y for x, y in zip(row, w)]) for row in turned]
        for i in range(3):
            vc.prove('edges are turned edges', comb[i] == image[i], using=[plain[k][i] == z3.Sum([x * y for x, y in zip(turned[i], z[k])]) for k in range(4)], naming=[plain[k][i] for k in range(4)] + [z[k][i] for k in range(4)])
        zero = z3.And([x == 0 for x in comb])
        vc.prove('no simplex is degenerate', z3.Implies(zero, z3.And([x == 0 for x in w])), using=[x == y for x, y in zip(comb, image)] + relations + [inst], naming=comb + image + w)
        size = [f for f in vc.facts if not vc.atoms(f) & frozenset().union(*[vc.atoms(x) for row in q for x in row])]
        vc.prove('no simplex is degenerate', z3.Implies(z3.And([x == 0 for x in w]), z3.And([x == 0 for x in alpha])), using=size)
    if len(sims) == 2:
        first, z0 = images[1][0][0], zs[1][0]
        differ = lambda p: z3.Or([a != b for a, b in zip(first, p)])
        vc.prove('the simplices are distinct', differ(images[0][0][0]), using=[z3.Or([a != b for a, b in zip(*points.values())])])
        for p, z in zip(images[0][0][1:], zs[0][1:]):
            far = dot(z, z) != dot(z0, z0)
            size = [f for f in vc.facts if not vc.atoms(f) & frozenset().union(*[vc.atoms(x) for row in images[0][2] for x in row])]
            vc.prove('a vertex at another distance', far, using=size)
            vc.prove('the simplices are distinct', differ(p), using=[far, dot(p, p) == dot(z, z), dot(first, first) == dot(z0, z0)], naming=[dot(z0, z0), dot(z, z)] + first + p)


def orthogonal(*v):
    q, a = [v[0:3], v[3:6], v[6:9]], v[9:]
    hyps = [z3.Sum([q[k][i] * q[k][j] for k in range(3)]) == int(i == j) for i in range(3) for j in range(i, 3)]
    image = [z3.Sum([x * y for x, y in zip(row, a)]) for row in q]
    return hyps, dot(image, image) == dot(a, a)


@spec('C19', functions=FUN19[1:2], seconds=30, reals=False, trusted=['contracts of the stencils (mesh_stencil, circle_stencil, sphere_stencil)'], scope='dimension up to 8')
def auto_stencil(vc):
    loader = load.Loader()
    fun = loader.get(STEN, 'get_auto_stencil')
    mod = loader.load(STEN)
    dim = 1 + vc.pick(8)
    calls = []

    def stub(name, real, check):
        import inspect
        sig = inspect.signature(real)

        def f(*args, **kw):
            vals = sig.bind(*args, **kw)
            vals.apply_defaults()
            calls.append((name, check(**vals.arguments)))
            return calls[-1]

        setattr(mod, name, f)

    for name, check in (('get_mesh_stencil', lambda mesh_size, dist_multiplier: len(mesh_size) == dim and all(m >= 1 for m in mesh_size) and dist_multiplier > 0 and list(mesh_size) != [0] * dim
                         and all(m == 1 or 2 * dist_multiplier / (m - 1) > 1e-6 for m in mesh_size)),
                        ('get_circle_stencil', lambda num_points: dim == 2 and num_points >= 1), ('get_sphere_stencil', lambda num_points: dim == 3 and num_points >= 1)):
        if not hasattr(mod, name):
            raise core.Unsupported('no {}'.format(name))
        stub(name, getattr(mod, name), check)
    res = fun(dim=dim)
    vc.prove('the automatic stencil is one of the stencils, for this dimension', z3.BoolVal(len(calls) == 1 and res is calls[0] and calls[0][1]))
