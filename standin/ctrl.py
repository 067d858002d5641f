"""C01, C16, C17, C20: complete searches."""
import asyncio
import collections
import os
import shutil
import tempfile

import h5py
import numpy as np

from .common import case, expect, gen_limits, bounds, need, call, Skip
from .coord import images
from .mesh import reference_mesh
from .minim import run_coro

import nodefinder.search as search
from nodefinder import io
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search.result import SearchResultContainer, MinimizationResult, ControllerState


class Scratch:
    count = 0
    # not the file system of the temporary files
    other = '/dev/shm'

    def __enter__(self):
        Scratch.count += 1
        where = self.other if Scratch.count % 3 == 0 and os.path.isdir(self.other) and os.access(self.other, os.W_OK | os.X_OK) else None
        self.path = tempfile.mkdtemp(prefix='verif_standin_', dir=where)
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def gen_gap(rng, lower, upper, periodic):
    """Gap function with roots inside the box (periodic if the box is)."""
    dim = len(lower)
    size = upper - lower
    roots = [lower + rng.random(dim) * size for _ in range(int(rng.integers(1, 4)))]
    kind = int(rng.integers(4))
    factor = float(np.exp(rng.uniform(-1, 1)))
    offset = float(rng.choice([0., 0., 0., 1e-4, .1]))

    def gap(x):
        x = np.asarray(x, dtype=float)
        vals = []
        for r in roots:
            if periodic:
                d = np.sin(np.pi * (x - r) / size) * size / np.pi
            else:
                d = x - r
            vals.append(np.sqrt(np.sum(d**2)))
        val = float(min(vals))
        if kind == 1:
            val = val**2
        elif kind == 2 and dim > 1:  # a line / surface
            d = np.sin(np.pi * (x - roots[0]) / size) * size / np.pi if periodic else x - roots[0]
            val = float(abs(d[0]))
        elif kind == 3:
            val = float(val * (1 + .5 * np.sin(30 * x[0] / size[0] * np.pi)**2))
        return factor * val + offset

    return kind, roots, offset, gap


class Gap:
    """Records calls; optionally a coroutine with random suspension points, optionally failing."""

    def __init__(self, func, rng=None, fail_at=None, exc=None):
        self.func, self.rng, self.fail_at, self.exc = func, rng, fail_at, exc
        self.calls = []
        self.active = 0
        self.max_active = 0
        self.failed = False

    def plain(self, x):
        x = np.array(x, dtype=float)
        if self.fail_at is not None and len(self.calls) >= self.fail_at:
            self.failed = True
            raise self.exc
        val = self.func(x)
        self.calls.append((x, val))
        return val

    async def coro(self, x):
        x = np.array(x, dtype=float)
        self.active += 1
        self.max_active = max(self.active, self.max_active)
        try:
            for _ in range(int(self.rng.choice([0, 0, 1, 2, 5, 20]))):
                await asyncio.sleep(0)
            return self.plain(x)
        finally:
            self.active -= 1


def setup(rng, ctx, dims=(1, 4), max_mesh=12):
    dim = int(rng.integers(*dims))
    limits = gen_limits(rng, dim, exact=bool(rng.integers(2)))
    lower, upper = bounds(limits)
    size = upper - lower
    periodic = bool(rng.integers(2))
    mesh = tuple(int(x) for x in rng.integers(1, 4, size=dim))
    while np.prod(mesh) > max_mesh:
        mesh = tuple(max(1, m - 1) for m in mesh)
    kind, roots, offset, gap = gen_gap(rng, lower, upper, periodic)
    feature = float(np.min(size) * rng.choice([.02, .1, .3]))
    if dim == 3:
        feature = max(feature, .1 * float(np.max(size)))
    kw = dict(
        limits=limits, periodic=periodic, initial_mesh_size=mesh, feature_size=feature,
        gap_threshold=float(rng.choice([1e-6, 1e-3, .05])),
        num_minimize_parallel=int(rng.choice([1, 2, 3, 50])),
        use_fake_potential=bool(rng.integers(2)),
        recheck_pos_dist=bool(rng.integers(3)),
        recheck_count_cutoff=int(rng.choice([0, 0, 1, 2])),
        simplex_check_cutoff=int(rng.choice([0, 0, 1, 2])),
    )
    sten = rng.integers(3)
    if sten == 0:
        kw['refinement_stencil'] = None
    elif sten == 1 and dim > 1:
        kw['refinement_stencil'] = search.refinement_stencil.get_mesh_stencil(mesh_size=[2] * dim, dist_multiplier=float(rng.choice([1.2, 2.])))
    else:
        kw['refinement_stencil'] = 'auto' if dim < 3 else search.refinement_stencil.get_sphere_stencil(num_points=6)
    if kind == 2:  # a whole line or surface of nodes: keep it small
        kw['refinement_stencil'] = None
    if rng.integers(3) == 0:
        kw['nelder_mead_kwargs'] = dict(maxfev=int(rng.integers(5, 60)))
    if rng.integers(4) == 0:
        kw['nelder_mead_kwargs'] = dict(kw.get('nelder_mead_kwargs', {}), fprime_cutoff=float(rng.choice([.5, 2.])))
    shown = dict(kw)
    if isinstance(shown['refinement_stencil'], np.ndarray):
        shown['refinement_stencil'] = 'stencil with {} simplices'.format(len(shown['refinement_stencil']))
    ctx.input(gap=(kind, roots, offset), **shown)
    return dim, limits, lower, upper, size, periodic, mesh, feature / 3, kind, gap, kw


# ------------------------------------------------------------------- C01
@case('C01', weight=3)
def nodes_are_true(rng, ctx):
    dim, limits, lower, upper, size, periodic, mesh, cutoff, kind, gap, kw = setup(rng, ctx)
    is_coro = bool(rng.integers(2))
    g = Gap(gap, rng)
    res = search.run(g.coro if is_coro else g.plain, **kw)
    nodes, rejected = list(res.nodes), list(res.rejected_results)
    calls = np.array([x for x, _ in g.calls])
    vals = np.array([v for _, v in g.calls])
    scale = np.max(np.abs(lower)) + np.max(np.abs(upper))
    for n in nodes + rejected:
        pos = np.asarray(n.pos)
        d = calls - pos
        if periodic:
            d = d - np.round(d / size) * size
        hit = np.flatnonzero(np.max(np.abs(d), axis=1) <= 1e-11 * scale)
        expect(len(hit) and np.any(vals[hit] == n.value), 'the recorded value is not the gap returned at the recorded position', pos=pos, value=n.value, values_there=vals[hit][:4])
    for n in nodes:
        expect(bool(n.success), 'a node from an unsuccessful minimization', pos=n.pos, status=n.status)
        expect(n.value <= kw['gap_threshold'], 'a node above the gap threshold', pos=n.pos, value=n.value, threshold=kw['gap_threshold'])
    for n in rejected:
        expect(not (n.success and n.value <= kw['gap_threshold']), 'an accepted minimization among the rejected results', pos=n.pos, value=n.value, success=n.success)
    expect(sum(n.num_fev for n in nodes + rejected) == len(calls), 'the evaluations of all results are not those that were made - a minimization is missing or counted twice',
           results=sum(n.num_fev for n in nodes + rejected), calls=len(calls))
    starts = [start_of(n) for n in nodes + rejected]
    expect(len(set(starts)) == len(starts), 'a minimization appears more than once')


def start_of(res):
    """The starting simplex of a result, as a sorted tuple of rounded vertices."""
    first = np.asarray(res.simplex_history)[0]
    return tuple(sorted(tuple(float(y) for y in x) for x in first))


# ------------------------------------------------------------------- C16
class Watch:
    """Counts the minimizations in progress (through the name the controller uses)."""

    def __init__(self):
        self.mod = __import__('nodefinder.search._controller', fromlist=['x'])
        if not hasattr(self.mod, 'run_minimization'):
            raise Skip('no run_minimization')
        self.real = self.mod.run_minimization
        self.active = 0
        self.max_active = 0
        self.starts = []

    def __enter__(self):
        async def watched(*args, **kw):
            sim = kw.get('initial_simplex', args[1] if len(args) > 1 else None)
            self.starts.append(tuple(sorted(tuple(float(y) for y in x) for x in sim)) if sim is not None else None)
            self.active += 1
            self.max_active = max(self.max_active, self.active)
            try:
                return await self.real(*args, **kw)
            finally:
                self.active -= 1

        self.mod.run_minimization = watched
        return self

    def __exit__(self, *exc):
        self.mod.run_minimization = self.real


@case('C16', weight=3)
def all_work_done(rng, ctx):
    dim, limits, lower, upper, size, periodic, mesh, cutoff, kind, gap, kw = setup(rng, ctx, max_mesh=20)
    is_coro = bool(rng.integers(4))
    g = Gap(gap, rng)
    with Scratch() as path, Watch() as watch:
        save_file = os.path.join(path, 'state.hdf5')
        after = {}

        async def main():
            res = await search.run_async(g.coro if is_coro else g.plain, save_file=save_file, **kw)
            after['active'] = watch.active
            n = len(g.calls)
            for _ in range(60):
                await asyncio.sleep(0)
            after['more'] = len(g.calls) - n
            return res

        res = run_coro(main())
        limit = kw['num_minimize_parallel']
        expect(after['active'] == 0 and after['more'] == 0, 'the search returned while a minimization was in progress', **after)
        expect(watch.max_active <= limit, 'more minimizations in progress than allowed', observed=watch.max_active, limit=limit)
        expect(g.max_active <= limit * (dim + 1), 'more evaluations in progress than the parallel minimizations need', observed=g.max_active, limit=limit)
        state = io.load(save_file)
        expect(len(list(state.simplex_queue.objects)) == 0, 'simplices left in the queue', left=state.simplex_queue.objects)
        if kw['refinement_stencil'] is not None:
            expect(len(list(state.position_queue.objects)) == 0, 'positions left to refine', left=state.position_queue.objects)
        allres = list(res.nodes) + list(res.rejected_results)
        starts = [start_of(r) for r in allres]
        expect(len(set(starts)) == len(starts), 'a simplex was minimized more than once')
        if None not in watch.starts:
            expect(sorted(watch.starts) == sorted(starts), 'the results are not those of the minimizations that were run', started=len(watch.starts), results=len(starts))
        if kw['refinement_stencil'] is None and not len(list(res.nodes)):
            ref = reference_mesh(lower, upper, mesh, periodic)
            expect(len(starts) == len(ref), 'not every simplex of the initial mesh was minimized', minimized=len(starts), mesh=len(ref))


@case('C16', weight=2)
def any_completion_order(rng, ctx):
    """The minimizations complete in an order chosen at random, one at a time."""
    dim = int(rng.integers(1, 3))
    mesh = tuple(int(x) for x in rng.integers(1, 5, size=dim))
    limit = int(rng.integers(1, 5))
    ctx.input(dim=dim, mesh=mesh, limit=limit)
    waiting = []

    async def gap(x):
        fut = asyncio.get_event_loop().create_future()
        waiting.append(fut)
        await fut
        return 1. + float(np.sum(np.abs(x)))

    async def main():
        task = asyncio.ensure_future(search.run_async(
            gap, limits=[(0, 1)] * dim, periodic=bool(rng.integers(2)), initial_mesh_size=mesh, refinement_stencil=None,
            feature_size=.5, num_minimize_parallel=limit, nelder_mead_kwargs=dict(maxiter=1)))
        steps = 0
        seen = 0
        while not task.done():
            for _ in range(6):
                await asyncio.sleep(0)
            seen = max(seen, len(waiting))
            expect(len(waiting) <= limit * (dim + 1), 'more evaluations in progress than allowed', waiting=len(waiting), limit=limit)
            if waiting:
                waiting.pop(int(rng.integers(len(waiting)))).set_result(None)
            steps += 1
            expect(steps < 5000, 'the search does not end')
        expect(seen >= min(limit, int(np.prod(mesh))), 'the parallel limit is not used', seen=seen, limit=limit)
        return task.result()

    res = run_coro(main())
    allres = list(res.nodes) + list(res.rejected_results)
    starts = {start_of(r) for r in allres}
    expect(len(allres) == len(starts) == int(np.prod(mesh)), 'not every simplex was minimized exactly once', results=len(allres), distinct=len(starts), mesh=mesh)


class _GapError(TimeoutError, ConnectionError, ValueError, KeyError, IndexError, ZeroDivisionError, FloatingPointError, OverflowError, RuntimeError):
    """An exception of any kind: a handler for one of them catches it."""


class _Cancelled(asyncio.CancelledError):
    pass


def gap_error(rng):
    return (_GapError if rng.integers(4) else _Cancelled)('gap failed')


@case('C16', weight=1)
def exceptions_propagate(rng, ctx):
    dim, limits, lower, upper, size, periodic, mesh, cutoff, kind, gap, kw = setup(rng, ctx)
    exc = gap_error(rng)
    g = Gap(gap, rng, fail_at=int(rng.integers(0, 30)), exc=exc)
    ctx.input(fail_at=g.fail_at)

    async def main():
        try:
            await search.run_async(g.coro if rng.integers(2) else g.plain, **kw)
        except _GapError as err:
            expect(err is exc, 'another exception was raised', raised=err)
            return True
        except asyncio.CancelledError as err:
            # (asyncio may raise a new one)
            expect(isinstance(exc, asyncio.CancelledError), 'another exception was raised', raised=err)
            return True
        return False

    raised = run_coro(main())
    if raised:
        return
    expect(not g.failed, 'the exception of the gap function was lost', fail_at=g.fail_at)


@case('C16', weight=1)
def exceptions_propagate_sync(rng, ctx):
    """A gap function that fails at a given evaluation; the search has more evaluations to do."""
    exc = gap_error(rng)
    dim = int(rng.integers(1, 3))
    fail_at = int(rng.integers(0, 6 * (dim + 1)))
    g = Gap(lambda x: 1. + float(np.sum(np.abs(x))), rng, fail_at=fail_at, exc=exc)
    is_coro = bool(rng.integers(2))
    limit = int(rng.integers(1, 8))
    ctx.input(dim=dim, fail_at=fail_at, coroutine=is_coro, limit=limit)
    try:
        search.run(
            g.coro if is_coro else g.plain, limits=[(0, 1)] * dim, initial_mesh_size=(6, ) * dim, refinement_stencil=None, feature_size=.5,
            num_minimize_parallel=limit, nelder_mead_kwargs=dict(maxiter=1)
        )
    except _GapError as err:
        expect(err is exc, 'another exception was raised', raised=err)
        return
    except asyncio.CancelledError as err:
        expect(isinstance(exc, asyncio.CancelledError), 'another exception was raised', raised=err)
        return
    expect(False, 'the exception of the gap function was lost')


@case('C16', weight=1)
def repeated_simplices(rng, ctx):
    """The same simplex queued several times - in the state, and by the mesh."""
    SimplexQueue = need('nodefinder.search._queue', 'SimplexQueue')
    PositionQueue = need('nodefinder.search._queue', 'PositionQueue')
    dim = int(rng.integers(1, 3))
    mesh = (int(rng.integers(1, 4)), ) * dim
    limits = [(0., 1.)] * dim
    cs = CoordinateSystem(limits=limits, periodic=True)
    ref = reference_mesh(np.zeros(dim), np.ones(dim), mesh, True)
    pick = [ref[i] for i in rng.integers(len(ref), size=int(rng.integers(1, 5)))]
    pick = [p[rng.permutation(dim + 1)] for p in pick]
    ctx.input(dim=dim, mesh=mesh, queued=pick)
    state = ControllerState(
        result=SearchResultContainer(coordinate_system=cs, gap_threshold=1e-6, dist_cutoff=.1),
        simplex_queue=call(SimplexQueue, pick), position_queue=call(PositionQueue))
    res = search.run(
        lambda x: 1. + float(np.sum(np.abs(x))), limits=limits, initial_state=state, initial_mesh_size=mesh, force_initial_mesh=True,
        refinement_stencil=None, feature_size=.3, nelder_mead_kwargs=dict(maxiter=1))
    starts = [start_of(r) for r in list(res.nodes) + list(res.rejected_results)]
    exp = {tuple(sorted(tuple(np.round(v, 9)) for v in r)) for r in ref + pick}
    got = [tuple(sorted(tuple(np.round(v, 9)) for v in s)) for s in starts]
    expect(len(got) == len(set(got)) and set(got) == exp, 'each distinct simplex is not minimized exactly once', minimized=len(got), distinct=len(set(got)), expected=len(exp))


@case('C16', weight=1)
def nothing_to_minimize(rng, ctx):
    """All simplices of a state are dropped, and positions refined, while nothing is minimized."""
    SimplexQueue = need('nodefinder.search._queue', 'SimplexQueue')
    PositionQueue = need('nodefinder.search._queue', 'PositionQueue')
    dim = int(rng.integers(1, 3))
    limits = [(0., 1.)] * dim
    cs = CoordinateSystem(limits=limits, periodic=True)
    node = rng.random(dim)
    num = int(rng.integers(0, 4))
    drop = [node + rng.uniform(-.01, .01, size=(dim + 1, dim)) for _ in range(num)]
    keep = [node + .5 + rng.uniform(-.01, .01, size=(dim + 1, dim)) for _ in range(int(rng.integers(0, 2)))]
    refine = bool(rng.integers(2))
    positions = [node + rng.uniform(-.01, .01, size=dim) for _ in range(int(rng.integers(0, 3)))] if refine else []
    stencil = np.array([np.full((dim + 1, dim), .01) + .005 * np.eye(dim + 1, dim)]) if refine else None
    as_drop = bool(rng.integers(2))
    ctx.input(dim=dim, node=node, dropped=drop, kept=keep, positions=positions, parallel=2)
    first = search.run(lambda x: 0., limits=limits, initial_mesh_size=1, refinement_stencil=None, feature_size=.3, nelder_mead_kwargs=dict(maxiter=1), gap_threshold=1.)
    con = SearchResultContainer(coordinate_system=cs, gap_threshold=1., dist_cutoff=.1)
    res = list(first.minimization_results)[0]
    res.pos, res.value, res.success = node.copy(), 0., True
    con.add_result(res)
    state = ControllerState(result=con, simplex_queue=call(SimplexQueue, drop + keep if as_drop else keep + drop), position_queue=call(PositionQueue, positions))
    calls = []
    out = search.run(
        lambda x: calls.append(1) or 1. + float(np.sum(np.abs(x))), limits=limits, initial_state=state, initial_mesh_size=1, refinement_stencil=stencil,
        feature_size=.3, nelder_mead_kwargs=dict(maxiter=1), gap_threshold=1., num_minimize_parallel=2, simplex_check_cutoff=0, recheck_pos_dist=False, use_fake_potential=False)
    total = len(list(out.nodes)) + len(list(out.rejected_results))
    expect(total == 1 + len(keep), 'the simplices which are not dropped are not minimized exactly once', results=total, expected=1 + len(keep))
    expect(len(list(out.refined_results)) == len(positions), 'a position was not refined', refined=len(list(out.refined_results)), expected=len(positions))


# ------------------------------------------------------------------- C17
def count_closer(pos, positions, size, periodic, cutoff, margin, different=False):
    count = 0
    for p in positions:
        if different and np.array_equal(p, pos):
            continue
        d = float(images(np.asarray(p) - pos, size, periodic))
        if abs(d - cutoff) < margin:
            raise Skip('borderline distance')
        count += d < cutoff
    return count


@case('C17', weight=3)
def decisions_of_a_search(rng, ctx):
    """Reference simulation of the search with one minimization at a time."""
    run_minimization = need('nodefinder.search._minimization._run', 'run_minimization')
    dim, limits, lower, upper, size, periodic, mesh, cutoff, kind, gap, kw = setup(rng, ctx, max_mesh=20)
    kw['num_minimize_parallel'] = 1
    kw['use_fake_potential'] = False
    kw['feature_size'] = float(np.min(size) * rng.choice([.3, .6, 1.2, 2.]))
    cutoff = kw['feature_size'] / 3
    ctx.input(feature_size=kw['feature_size'])
    res = search.run(gap, **kw)
    nmk = dict(dict(ftol=.05 * kw['gap_threshold'], xtol=.03 * cutoff), **kw.get('nelder_mead_kwargs', {}))
    stencil = kw['refinement_stencil']
    if isinstance(stencil, str):
        stencil = search.refinement_stencil.get_auto_stencil(dim=dim)
    margin = 1e-9 * (np.max(np.abs(lower)) + np.max(np.abs(upper)))
    queue, seen, pos_queue, pos_seen = collections.deque(), set(), collections.deque(), set()
    nodes, refined, minimized = [], [], []

    def add(simplices):
        for s in simplices:
            key = tuple(sorted(tuple(float(y) for y in x) for x in s))
            if key not in seen:
                seen.add(key)
                queue.append(key)

    async def gap_coro(x):
        return gap(x)

    func = need('nodefinder.search._mesh_helper', '_generate_mesh_simplices')
    add(call(func, limits=np.array([sorted(x) for x in limits]), mesh_size=mesh, periodic=periodic))
    while queue or (pos_queue and stencil is not None):
        while not queue and pos_queue:
            pos = np.array(pos_queue.popleft())
            if not kw['recheck_pos_dist'] or count_closer(pos, refined, size, periodic, cutoff, margin) <= kw['recheck_count_cutoff']:
                add(pos + stencil * cutoff)
                refined.append(pos)
        if not queue:
            break
        simplex = queue.popleft()
        close = sum(count_closer(np.array(v), nodes, size, periodic, cutoff, margin, different=True) > 0 for v in simplex)
        if close > kw['simplex_check_cutoff']:
            continue
        out = run_coro(run_minimization(gap_coro, initial_simplex=simplex, nelder_mead_kwargs=nmk))
        minimized.append(simplex)
        if out.success and out.value <= kw['gap_threshold']:
            pos = np.asarray(out.pos)
            if periodic:
                pos = (pos - lower) % size + lower
            nodes.append(pos)
            if stencil is not None and count_closer(pos, refined, size, periodic, cutoff, margin) == 0 and tuple(pos) not in pos_seen:
                pos_seen.add(tuple(pos))
                pos_queue.append(pos)
        if len(minimized) > 400:
            raise Skip('too large')
    got = [start_of(r) for r in list(res.nodes) + list(res.rejected_results)]

    def rounded(x):
        return tuple(tuple(np.round(v, 8)) for v in x)

    expect(len(got) == len(minimized) and {rounded(x) for x in got} == {rounded(x) for x in minimized},
           'other simplices were minimized than the cutoffs allow', minimized=len(got), expected=len(minimized))
    ref_got = [np.asarray(x) for x in res.refined_results]
    expect(len(ref_got) == len(refined) and all(np.allclose(a, b, rtol=0, atol=1e-7 * (1 + np.max(np.abs(b)))) for a, b in zip(ref_got, refined)),
           'other positions were refined than the cutoffs allow', refined=ref_got, expected=refined)


@case('C17', weight=2)
def recheck_functions(rng, ctx):
    """The decisions for arbitrary contents of the result."""
    Controller = need('nodefinder.search._controller', 'Controller')
    from .cells import gen_points, make_result
    dim = int(rng.integers(1, 4))
    limits = gen_limits(rng, dim, exact=bool(rng.integers(2)))
    lower, upper = bounds(limits)
    size = upper - lower
    periodic = bool(rng.integers(2))
    feature = float(np.min(size) * rng.choice([.3, 1., 2.]) + .05 * np.max(size))
    cutoff = feature / 3
    scc = int(rng.integers(0, dim + 2))
    con = call(
        Controller, gap_fct=lambda x: 1., limits=limits, periodic=periodic, initial_state=None, save_file=None, load=False, load_quiet=True,
        initial_mesh_size=1, force_initial_mesh=False, gap_threshold=1e-3, feature_size=feature, nelder_mead_kwargs={}, num_minimize_parallel=2,
        refinement_stencil='auto' if dim > 1 else np.array([[[1.5], [2.]]]), simplex_check_cutoff=scc)
    check_pos, check_simplex = getattr(con, '_check_pos_refinement', None), getattr(con, '_check_simplex', None)
    process = getattr(con, 'process_result', None)
    if None in (check_pos, check_simplex, process):
        raise Skip('methods not found')
    nodes = gen_points(rng, limits, lower, size, cutoff, int(rng.integers(0, 6)))
    refined = [np.array(p) for p in gen_points(rng, limits, lower, size, cutoff, int(rng.integers(0, 6)))]
    for p in nodes:
        con.state.result.add_result(make_result(p))
    for p in refined:
        con.state.result.set_refined(p)
    nodes = [np.asarray(x.pos) for x in con.state.result.nodes]
    margin = 1e-9 * (np.max(np.abs(lower)) + np.max(np.abs(upper)))
    ctx.input(limits=limits, periodic=periodic, feature_size=feature, nodes=nodes, refined=refined, simplex_check_cutoff=scc)
    for q in gen_points(rng, limits, lower, size, cutoff, 3) + [p + rng.normal(size=dim) * .3 * cutoff for p in refined[:2]]:
        cc = int(rng.integers(0, 4))
        n = count_closer(q, refined, size, periodic, cutoff, margin)
        got = call(check_pos, q, count_cutoff=cc)
        expect(bool(got) == (n <= cc), 'wrong decision whether to refine a position', position=q, refined_closer=n, allowed=cc, decision=got)
    for _ in range(3):
        sim = np.array(gen_points(rng, limits, lower, size, cutoff, dim + 1))
        if nodes and rng.integers(2):
            for i in range(dim + 1):
                if rng.integers(2):
                    sim[i] = nodes[rng.integers(len(nodes))] + rng.normal(size=dim) * .3 * cutoff * rng.integers(0, 2)
        n = sum(count_closer(v, nodes, size, periodic, cutoff, margin, different=True) > 0 for v in sim)
        got = call(check_simplex, sim if rng.integers(2) else tuple(tuple(x) for x in sim))
        expect(bool(got) == (n <= scc), 'wrong decision whether to drop a simplex', simplex=sim, vertices_close=n, allowed=scc, decision=got)
    for q in gen_points(rng, limits, lower, size, cutoff, 2):
        before = list(con.state.position_queue.objects)
        good = bool(rng.integers(3))
        r = make_result(q, value=0. if good else 1.)
        call(process, r)
        pos = np.asarray(r.pos)
        n = count_closer(pos, refined, size, periodic, cutoff, margin)
        after = list(con.state.position_queue.objects)
        added = [x for x in after if x not in before]
        exp = [tuple(pos)] if good and n == 0 and tuple(pos) not in before else []
        expect([tuple(x) for x in added] == exp, 'wrong decision whether to queue a node for refinement', position=pos, is_node=good, refined_closer=n, queued=added)


@case('C17', weight=.5)
def exactly_at_the_cutoff(rng, ctx):
    """What is at exactly the cutoff distance is not closer than it."""
    Controller = need('nodefinder.search._controller', 'Controller')
    from .cells import exact_setup, at_distance, make_result
    dim, lower, size, cutoff, limits = exact_setup(rng)
    periodic = bool(rng.integers(2))
    con = call(
        Controller, gap_fct=lambda x: 1., limits=limits, periodic=periodic, initial_state=None, save_file=None, load=False, load_quiet=True,
        initial_mesh_size=1, force_initial_mesh=False, gap_threshold=1e-3, feature_size=3 * cutoff, nelder_mead_kwargs={}, num_minimize_parallel=2,
        refinement_stencil=np.array([np.ones((dim + 1, dim))]), simplex_check_cutoff=0)
    check_pos, check_simplex, process = (getattr(con, n, None) for n in ('_check_pos_refinement', '_check_simplex', 'process_result'))
    if None in (check_pos, check_simplex, process):
        raise Skip('methods not found')
    pos = lower + rng.integers(0, 65, size=dim) / 64 * size
    cs = con.coordinate_system
    con.state.result.add_result(make_result(pos))
    pos = np.asarray(list(con.state.result.nodes)[0].pos)
    con.state.result.set_refined(pos)
    query = at_distance(rng, pos, cutoff)
    ctx.input(limits=limits, periodic=periodic, cutoff=cutoff, known=pos, position=query)
    query = np.asarray(cs.normalize_position(query))
    if con.dist_cutoff != cutoff or float(cs.distance(query, pos)) != cutoff or images(pos - query, size, periodic) != cutoff or 2 * cutoff > size.min():
        ctx.trivial()
        return
    expect(bool(call(check_pos, query)), 'a position is not refined although no refined position is closer than the cutoff')
    expect(bool(call(check_simplex, np.array([query] * (dim + 1)))), 'a simplex is dropped although no node is closer than the cutoff to its vertices')
    before = len(con.state.position_queue.objects)
    call(process, make_result(query))
    expect(len(con.state.position_queue.objects) == before + 1, 'a node is not queued for refinement although no refined position is closer than the cutoff')


# ------------------------------------------------------------------- C20
def key_of(vertices, digits=9):
    return tuple(sorted(tuple(np.round(np.asarray(v, dtype=float), digits) + 0.) for v in vertices))


@case('C20', weight=3)
def resume_keeps_work(rng, ctx):
    SimplexQueue = need('nodefinder.search._queue', 'SimplexQueue')
    PositionQueue = need('nodefinder.search._queue', 'PositionQueue')
    from .cells import gen_points, make_result
    dim = int(rng.integers(1, 4))
    limits = gen_limits(rng, dim, exact=True)
    lower, upper = bounds(limits)
    size = upper - lower
    periodic = bool(rng.integers(2))
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    thr_old, thr_new = float(rng.choice([1e-3, .5])), float(rng.choice([1e-3, .5]))
    feature = float(np.max(size) * rng.choice([.2, .6]))
    results = [make_result(p, value=float(rng.choice([0., 1e-3, .01, .5, .7])), success=bool(rng.integers(4)), tag=i, num_fev=0)
               for i, p in enumerate(gen_points(rng, limits, lower, size, feature / 3, int(rng.integers(0, 8))))]
    if rng.integers(4) == 0:
        cs = CoordinateSystem(limits=limits, periodic=not periodic)
    old = SearchResultContainer(coordinate_system=cs, gap_threshold=thr_old, dist_cutoff=feature / 3 * float(rng.choice([.5, 1., 2.])), minimization_results=results)
    refined = [np.array(p) for p in gen_points(rng, limits, lower, size, feature / 3, int(rng.integers(0, 4)))]
    for p in refined:
        old.set_refined(p)
    sims = [lower + rng.random((dim + 1, dim)) * size for _ in range(int(rng.integers(0, 5)))]
    queue = call(SimplexQueue, sims)
    n_run = int(rng.integers(0, len(sims) + 1))
    popped = [queue.pop_queued() for _ in range(n_run)]
    done = []
    for obj in popped:
        if rng.integers(3) == 0:
            queue.set_finished(obj)
            done.append(key_of(obj))
    wide = rng.integers(3) == 0  # the earlier search had another box
    positions = [lower + (rng.uniform(-.7, 1.7, size=dim) if wide else rng.random(dim)) * size for _ in range(int(rng.integers(0, 3)))]
    if wide:
        old.coordinate_system = CoordinateSystem(limits=[(float(a - s), float(b + s)) for a, b, s in zip(lower, upper, size)], periodic=periodic)
    state = ControllerState(result=old, simplex_queue=queue, position_queue=call(PositionQueue, positions))
    mesh = tuple(int(x) for x in rng.integers(1, 3, size=dim))
    force = bool(rng.integers(2))
    with_stencil = bool(rng.integers(2))
    stencil = .1 * rng.normal(size=(2, dim + 1, dim)) + 5. if with_stencil else None
    via_file = bool(rng.integers(2))
    ctx.input(limits=limits, periodic=periodic, thresholds=(thr_old, thr_new), feature_size=feature, results=[(r.pos, r.value, r.success) for r in results],
              refined=refined, simplices=sims, popped=len(popped), finished=len(done), positions=positions, mesh=mesh, force_initial_mesh=force, stencil=stencil, via_file=via_file)
    g = Gap(lambda x: 100. + float(np.sum(np.abs(x))), rng)
    kw = dict(
        limits=limits, periodic=periodic, feature_size=feature, gap_threshold=thr_new, initial_mesh_size=mesh, force_initial_mesh=force,
        refinement_stencil=stencil, recheck_pos_dist=False, simplex_check_cutoff=100, nelder_mead_kwargs=dict(maxiter=1), num_minimize_parallel=int(rng.integers(1, 5)))
    tags = None
    with Scratch() as path:
        if via_file:
            fname = os.path.join(path, 'state.hdf5')
            io.save(state, fname)
            res = search.run(g.plain, save_file=fname, load=True, **kw)
        else:
            res = search.run(g.plain, initial_state=state, **kw)
    allres = list(res.nodes) + list(res.rejected_results)
    new = [r for r in allres if hasattr(r, 'simplex_history')]
    kept = [r for r in allres if not hasattr(r, 'simplex_history')]
    expect(sorted(int(r.tag) for r in kept) == list(range(len(results))), 'results of the earlier state were lost or duplicated', kept=[r.tag for r in kept], expected=len(results))
    for r in kept:
        good = bool(r.success) and r.value <= thr_new
        expect(any(r is x for x in res.nodes) == good, 'an earlier result is not classified by the new threshold', value=r.value, success=r.success, threshold=thr_new)
    tol = 1e-9
    got_ref = [tuple(np.round(x, 9)) for x in res.refined_results]
    for p in refined:
        expect(tuple(np.round(p, 9)) in got_ref, 'an earlier refined position was lost', position=p)
    exp = {key_of(s) for s in sims} - set(done)
    if with_stencil:
        for p in positions:
            exp |= {key_of(s) for s in p + stencil * feature / 3}
            expect(tuple(np.round(p, 9)) in got_ref, 'a queued position was not refined', position=p)
        expect(len(got_ref) == len(refined) + len({tuple(p) for p in positions}), 'number of refined positions', got=len(got_ref), expected=len(refined) + len(positions))
    if force:
        exp |= {key_of(s) for s in reference_mesh(lower, upper, mesh, periodic)}
    got = [key_of(np.asarray(r.simplex_history)[0]) for r in new]
    expect(sorted(got) == sorted(exp), 'the simplices that were minimized are not the remaining ones of the state' + (' and the mesh' if force else ''),
           minimized=len(got), expected=len(exp), missing=[x for x in exp if x not in got][:2], extra=[x for x in got if x not in exp][:2])
    cutoffs = res.dist_cutoff, res.gap_threshold
    expect(abs(cutoffs[0] - feature / 3) < 1e-12 * feature and cutoffs[1] == thr_new, 'the new settings are not used', cutoff=cutoffs[0], threshold=cutoffs[1])
    box = res.coordinate_system
    expect(bool(box.periodic) == periodic and np.array_equal(np.sort(np.asarray(box.limits, dtype=float), axis=-1), np.array([lower, upper]).T), 'the box of this search is not used', limits=box.limits, periodic=box.periodic)


@case('C20', weight=2)
def interrupted_search(rng, ctx):
    """A search interrupted by a failing gap function, and resumed from its save file."""
    dim = int(rng.integers(1, 3))
    limits = gen_limits(rng, dim, exact=True)
    lower, upper = bounds(limits)
    periodic = bool(rng.integers(2))
    mesh = tuple(int(x) for x in rng.integers(1, 4, size=dim))
    fail_at = int(rng.integers(0, int(np.prod(mesh)) * (dim + 1)))
    kw = dict(limits=limits, periodic=periodic, initial_mesh_size=mesh, refinement_stencil=None, feature_size=float(np.max(upper - lower)),
              num_minimize_parallel=int(rng.integers(1, 5)), nelder_mead_kwargs=dict(maxiter=1), save_delay=float(rng.choice([0., 5.])))
    ctx.input(fail_at=fail_at, **kw)
    ref = reference_mesh(lower, upper, mesh, periodic)
    with Scratch() as path:
        fname = os.path.join(path, 'state.hdf5')
        g = Gap(lambda x: 1. + float(np.sum(np.abs(x))), rng, fail_at=fail_at, exc=_GapError())
        try:
            search.run(g.coro if rng.integers(2) else g.plain, save_file=fname, **kw)
        except _GapError:
            pass
        expect(os.path.exists(fname), 'nothing was saved')
        g2 = Gap(lambda x: 1. + float(np.sum(np.abs(x))), rng)
        res = search.run(g2.plain, save_file=fname, load=True, load_quiet=bool(rng.integers(2)), **kw)
    got = [key_of(np.asarray(r.simplex_history)[0]) for r in list(res.nodes) + list(res.rejected_results)]
    exp = [key_of(s) for s in ref]
    expect(sorted(got) == sorted(exp), 'after resuming, the simplices of the mesh are not each minimized exactly once', minimized=len(got), expected=len(exp), missing=[x for x in exp if x not in got][:2])


@case('C20', maxn=80)
def argument_errors(rng, ctx):
    dim = int(rng.integers(1, 4))
    base = dict(limits=[(0, 1)] * dim, refinement_stencil=None, nelder_mead_kwargs=dict(maxiter=1), feature_size=1., initial_mesh_size=1)
    what = int(rng.integers(5))
    ctx.input(dim=dim, what=what)
    calls = []

    def gap(x):
        calls.append(x)
        return 1.

    with Scratch() as path:
        missing = os.path.join(path, 'missing.hdf5')
        if what == 0:
            state = ControllerState(result=SearchResultContainer(coordinate_system=CoordinateSystem(limits=[(0, 1)] * dim), gap_threshold=1., dist_cutoff=1.),
                                    simplex_queue=call(need('nodefinder.search._queue', 'SimplexQueue')), position_queue=call(need('nodefinder.search._queue', 'PositionQueue')))
            try:
                search.run(gap, initial_state=state, load=True, save_file=missing, **base)
            except ValueError:
                return
            expect(False, 'a state and load=True together are accepted')
        elif what == 1:
            try:
                search.run(gap, **dict(base, initial_mesh_size=(2, ) * (dim + 1)))
            except ValueError:
                return
            expect(False, 'a mesh with the wrong dimension is accepted')
        elif what == 2:
            try:
                search.run(gap, load=True, load_quiet=False, save_file=missing, **base)
            except OSError:
                return
            expect(False, 'a missing file is ignored although load_quiet is off')
        elif what == 3:
            # a file which is there, but of which no state can be loaded
            with h5py.File(missing, 'w') as f:
                f['something'] = 1
            try:
                search.run(gap, load=True, load_quiet=bool(rng.integers(2)), save_file=missing, **base)
            except Exception:
                return
            expect(False, 'a file without a state is ignored')
        else:
            res = search.run(gap, load=True, load_quiet=True, save_file=missing, **dict(base, initial_mesh_size=(2, ) * dim))
            expect(len(list(res.rejected_results)) == 2**dim, 'a search without a state does not start with the initial mesh', results=len(list(res.rejected_results)))


@case('C20', weight=1)
def fresh_start(rng, ctx):
    dim = int(rng.integers(1, 4))
    limits = gen_limits(rng, dim, exact=True)
    lower, upper = bounds(limits)
    periodic = bool(rng.integers(2))
    mesh = tuple(int(x) for x in rng.integers(1, 4, size=dim))
    force = bool(rng.integers(2))
    ctx.input(limits=limits, mesh=mesh, force_initial_mesh=force)
    res = search.run(lambda x: 1., limits=limits, periodic=periodic, initial_mesh_size=mesh, force_initial_mesh=force, refinement_stencil='auto' if dim > 1 else None,
                     feature_size=float(np.max(upper - lower)), nelder_mead_kwargs=dict(maxiter=1))
    got = [key_of(np.asarray(r.simplex_history)[0]) for r in list(res.nodes) + list(res.rejected_results)]
    exp = [key_of(s) for s in reference_mesh(lower, upper, mesh, periodic)]
    expect(sorted(got) == sorted(exp), 'the search does not start with exactly the initial mesh', minimized=len(got), expected=len(exp))
    expect(len(list(res.refined_results)) == 0, 'refined positions from nowhere')
