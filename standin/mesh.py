"""C18, C19: initial mesh and refinement stencils."""
import asyncio
import itertools

import numpy as np

from .common import case, expect, gen_limits, bounds, need, call, Skip

import nodefinder.search as search
from nodefinder.search import refinement_stencil as rs


def reference_mesh(lower, upper, mesh, periodic):
    axes = []
    for lo, up, m in zip(lower, upper, mesh):
        step = (up - lo) / (m if periodic else max(m - 1, 1))
        axes.append([lo + k * step for k in range(m)])
    res = []
    for v in itertools.product(*axes):
        sim = [np.array(v)]
        for i in range(len(v)):
            p = np.array(v)
            p[i] += (upper[i] - lower[i]) / (2 * mesh[i])
            sim.append(p)
        res.append(np.array(sim))
    return res


def check_mesh(got, lower, upper, mesh, periodic):
    dim = len(lower)
    ref = reference_mesh(lower, upper, mesh, periodic)
    got = [np.asarray(x) for x in got]
    expect(len(got) == len(ref), 'not one simplex per mesh point', number=len(got), expected=len(ref))
    expect(all(x.shape == (dim + 1, dim) for x in got), 'shape of the simplices', shapes=[x.shape for x in got][:3])
    tol = 1e-9 * (np.max(np.abs(lower)) + np.max(np.abs(upper)))

    def canon(sims):
        return np.array(sorted((tuple(sorted(tuple(np.round(v / (tol * 1e3)).astype(int) * 1.) for v in s)) for s in sims)))

    left = list(range(len(ref)))
    refarr = np.array([np.sort(r, axis=0) for r in ref])
    used = np.zeros(len(ref), dtype=bool)
    for g in got:
        # the vertices in any order
        d = np.max(np.abs(refarr - np.sort(g, axis=0)), axis=(1, 2))
        d[used] = np.inf
        i = int(np.argmin(d))
        expect(d[i] <= tol, 'a simplex that does not belong to the mesh', simplex=g)
        for v in ref[i]:
            expect(np.min(np.max(np.abs(g - v), axis=1)) <= tol, 'a simplex that does not belong to the mesh', simplex=g, expected=ref[i])
        used[i] = True


def gen_mesh(rng, ctx):
    dim = int(rng.integers(1, 5))
    limits = gen_limits(rng, dim, exact=bool(rng.integers(2)))
    limits = [tuple(sorted(x)) for x in limits]
    if rng.integers(6) == 0:
        # other orders of magnitude
        mag = 10.**int(rng.integers(-14, 11))
        limits = [(a * mag, b * mag) for a, b in limits]
    mesh = tuple(int(x) for x in rng.integers(1, 5 if dim < 4 else 4, size=dim))
    periodic = bool(rng.integers(2))
    ctx.input(limits=limits, mesh_size=mesh, periodic=periodic)
    lower, upper = bounds(limits)
    return dim, limits, mesh, periodic, lower, upper


@case('C18')
def mesh_simplices(rng, ctx):
    func = need('nodefinder.search._mesh_helper', '_generate_mesh_simplices')
    dim, limits, mesh, periodic, lower, upper = gen_mesh(rng, ctx)
    got = call(func, limits=limits if rng.integers(2) else np.array(limits), mesh_size=mesh, periodic=periodic)
    check_mesh(got, lower, upper, mesh, periodic)


@case('C18')
def fine_mesh(rng, ctx):
    """Many points, where rounding errors of the steps accumulate."""
    func = need('nodefinder.search._mesh_helper', '_generate_mesh_simplices')
    dim = int(rng.integers(1, 3))
    lower = rng.integers(-30, 30, size=dim) / float(rng.choice([1., 2., 3., 7., 10.]))
    upper = lower + rng.integers(1, 30, size=dim) / float(rng.choice([1., 2., 3., 7., 10.]))
    mesh = tuple(int(x) for x in rng.integers(1, 130 if dim == 1 else 16, size=dim))
    periodic = bool(rng.integers(3))
    limits = [(float(a), float(b)) for a, b in zip(lower, upper)]
    ctx.input(limits=limits, mesh_size=mesh, periodic=periodic)
    check_mesh(list(call(func, limits=limits, mesh_size=mesh, periodic=periodic)), lower, upper, mesh, periodic)


@case('C18')
def mesh_of_search(rng, ctx):
    """Through the public interface: the gap function sees the vertices of the initial simplices first."""
    dim, limits, mesh, periodic, lower, upper = gen_mesh(rng, ctx)
    if np.prod(mesh) > 40:
        mesh = tuple(min(m, 3) for m in mesh)
    if np.prod(mesh) > 40:
        mesh = (2, ) * dim
    given = mesh
    if rng.integers(3) == 0:
        mesh = (mesh[0], ) * dim
        if mesh[0]**dim > 40:
            mesh = (2, ) * dim
        given = mesh[0]
        if rng.integers(2):
            given = np.int64(given)
    if rng.integers(3) == 0:
        limits = [x[::-1] for x in limits]
    ctx.input(limits=limits, given_mesh_size=given)
    calls = []

    def gap(x):
        calls.append(np.array(x))
        return 1.

    res = search.run(
        gap, limits=limits, periodic=periodic, initial_mesh_size=given, refinement_stencil=None, feature_size=float(np.max(upper - lower)),
        nelder_mead_kwargs=dict(maxiter=1), num_minimize_parallel=int(rng.integers(1, 4)) * 50
    )
    sims = [np.asarray(r.simplex_history)[0] for r in res.rejected_results]
    expect(len(list(res.nodes)) == 0, 'nodes without roots')
    check_mesh(sims, lower, upper, mesh, periodic)
    expect(len(calls) == len(sims) * (dim + 1), 'number of evaluations', calls=len(calls))


@case('C18', maxn=60)
def wrong_mesh_dimension(rng, ctx):
    dim, limits, mesh, periodic, lower, upper = gen_mesh(rng, ctx)
    bad = mesh + (2, ) if rng.integers(2) or dim == 1 else mesh[:-1]
    ctx.input(bad_mesh=bad)
    try:
        search.run(lambda x: 1., limits=limits, periodic=periodic, initial_mesh_size=bad, refinement_stencil=None, nelder_mead_kwargs=dict(maxiter=1), feature_size=float(np.max(upper - lower)))
    except ValueError:
        return
    expect(False, 'a mesh that does not fit the dimension is accepted', limits=limits, mesh=bad)


# ------------------------------------------------------------------- C19
def volumes(stencil):
    edges = stencil[:, 1:, :] - stencil[:, :1, :]
    return np.abs(np.linalg.det(edges))


def check_shape(stencil, number, dim):
    expect(isinstance(stencil, np.ndarray) and stencil.ndim == 3 and stencil.shape[1:] == (dim + 1, dim), 'shape of the stencil', shape=np.shape(stencil), dim=dim)
    if number is not None:
        expect(len(stencil) == number, 'number of simplices', got=len(stencil), expected=number)
    expect(np.all(np.isfinite(stencil)), 'not finite')
    edges = stencil[:, :, None, :] - stencil[:, None, :, :]
    longest = np.max(np.linalg.norm(edges, axis=-1), axis=(1, 2)) if len(stencil) else np.zeros(0)
    expect(np.all(volumes(stencil) > 1e-9 * longest**dim), 'a simplex is degenerate', volumes=np.sort(volumes(stencil))[:3])


def check_congruent(stencil, tol=1e-9):
    edges = np.linalg.norm(stencil[:, :, None, :] - stencil[:, None, :, :], axis=-1)
    norms = np.linalg.norm(stencil, axis=-1)
    e = np.sort(edges.reshape(len(stencil), -1), axis=-1)
    n = np.sort(norms, axis=-1)
    scale = max(1., np.max(norms))
    expect(np.all(np.abs(e - e[0]) < tol * scale), 'simplices with different edge lengths', edges=e[:3])
    expect(np.all(np.abs(n - n[0]) < tol * scale), 'simplices with different vertex distances from the origin', norms=n[:3])
    for i in range(len(stencil)):
        other = np.delete(stencil, i, axis=0)
        if len(other):
            expect(np.min(np.max(np.abs(other - stencil[i]), axis=(1, 2))) > 1e-9, 'the same simplex twice', simplex=stencil[i])


@case('C19')
def circle(rng, ctx):
    num = int(rng.integers(1, 60))
    ctx.input(num_points=num)
    stencil = rs.get_circle_stencil(num_points=num)
    check_shape(stencil, num, 2)
    check_congruent(stencil)


@case('C19')
def sphere(rng, ctx):
    num = int(rng.integers(1, 120))
    ctx.input(num_points=num)
    stencil = rs.get_sphere_stencil(num_points=num)
    check_shape(stencil, num, 3)
    check_congruent(stencil)


@case('C19')
def mesh(rng, ctx):
    dim = int(rng.integers(1, 5))
    size = [int(x) for x in rng.integers(1, 6 if dim < 4 else 4, size=dim)]
    if rng.integers(3) == 0:
        size = [3] * dim
    mult = float(rng.choice([2.5, 1., .3, 7.])) if rng.integers(2) else 2.5
    if rng.integers(3) == 0:
        # odd sizes, for which the origin is a mesh point - up to rounding
        size = [int(2 * rng.integers(1, 30 if dim < 3 else 3) + 1) for _ in range(dim)]
        mult = float(rng.choice([.1, .3, .7, 1.1])) if rng.integers(2) else float(rng.uniform(.05, 5))
        while np.prod(size) > 2000:
            size[int(np.argmax(size))] = 3
    ctx.input(mesh_size=size, dist_multiplier=mult)
    points = list(itertools.product(*[[(0. if 2 * k == m - 1 else -mult + 2 * mult * k / (m - 1)) if m > 1 else -mult for k in range(m)] for m in size]))
    number = sum(any(p) for p in points)
    if number == 0:
        ctx.trivial()
        return
    stencil = rs.get_mesh_stencil(mesh_size=size, dist_multiplier=mult) if mult != 2.5 or rng.integers(2) else rs.get_mesh_stencil(mesh_size=size)
    check_shape(stencil, number, dim)
    ref = [s for s, p in zip(reference_mesh([-mult] * dim, [mult] * dim, size, False), points) if any(p)]
    check_mesh_list(stencil, ref, mult)


def check_mesh_list(got, ref, scale):
    refarr = np.array(ref)
    for g in got:
        d = np.max(np.abs(refarr - g), axis=(1, 2))
        d2 = np.max(np.abs(np.sort(refarr, axis=1) - np.sort(g, axis=0)), axis=(1, 2))
        expect(min(np.min(d), np.min(d2)) <= 1e-9 * scale, 'a simplex that does not start at a mesh point, or is not axis-aligned', simplex=g)
    gotarr = np.array(got)
    for r in ref:
        d = np.max(np.abs(np.sort(gotarr, axis=1) - np.sort(r, axis=0)), axis=(1, 2))
        expect(np.min(d) <= 1e-9 * scale, 'no simplex for a mesh point', simplex=r)


@case('C19', maxn=12)
def auto(rng, ctx):
    dim = int(rng.integers(1, 6))
    ctx.input(dim=dim)
    stencil = rs.get_auto_stencil(dim=dim)
    check_shape(stencil, None, dim)
    expect(len(stencil) > 0, 'empty stencil')
