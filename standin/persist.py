"""C21 - C23: save files and round trips."""
import os
import sys
from collections import Counter

import numpy as np
import networkx as nx

from .common import case, expect, gen_limits, bounds, need, call, Skip
from .cells import gen_points, make_result
from .ctrl import Scratch, Gap, gen_gap, start_of

import nodefinder.search as search
from nodefinder import io
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search.result import SearchResultContainer, MinimizationResult, ControllerState, JoinedMinimizationResult
from nodefinder.identify.result import IdentificationResult, IdentificationResultContainer, NodalPoint, NodalLine


def gen_min_result(rng, dim, pos=None, tag=None):
    n_iter = int(rng.integers(1, 4)) if rng.integers(12) else int(rng.choice([40, 700, 1500]))
    kw = dict(
        pos=rng.normal(size=dim) if pos is None else np.array(pos, dtype=float),
        value=float(rng.choice([0., 1e-4, .5, np.inf, np.nan, rng.normal()])), success=bool(rng.integers(3)), status=int(rng.integers(4)),
        message=str(rng.choice(['Optimization terminated successfully.', 'Maximum number of iterations has been exceeded.', 'ünïcode message', '  blanks  at both ends\n', ''])),
        num_fev=int(rng.integers(100)), num_iter=n_iter,
        simplex_history=rng.normal(size=(n_iter, dim + 1, dim)))
    if rng.integers(4):
        kw['fun_simplex_history'] = rng.normal(size=(n_iter, dim + 1))
    return MinimizationResult(**kw)


def gen_any_result(rng, dim, pos=None):
    res = gen_min_result(rng, dim, pos)
    if rng.integers(3) == 0:
        res = JoinedMinimizationResult(child=res, ancestor=gen_min_result(rng, dim))
        if not (hasattr(res.child, 'fun_simplex_history') and hasattr(res.ancestor, 'fun_simplex_history')):
            for r in (res.child, res.ancestor):
                r.fun_simplex_history = rng.normal(size=(r.num_iter, dim + 1))
    return res


ATTRS = ['pos', 'value', 'success', 'status', 'message', 'num_fev', 'num_iter', 'simplex_history', 'fun_simplex_history']


def same_value(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def same_point(a, b, cs):
    """Equal up to rounding and, in periodic boxes, whole periods: positions are
    mapped into the box again when they are loaded."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if np.array_equal(a, b):
        return True
    delta = a - b
    if cs.periodic:
        size = np.asarray(cs.size, dtype=float)
        delta = delta - size * np.round(delta / size)
    return bool(np.all(np.abs(delta) <= 1e-12 * (np.abs(a) + np.asarray(cs.size))))


def check_min_result(a, b, where, cs=None):
    for key in ATTRS:
        expect(hasattr(a, key) == hasattr(b, key), 'an attribute was lost or invented', where=where, attribute=key)
        if key == 'pos' and cs is not None:
            expect(same_point(a.pos, b.pos, cs), 'position differs after loading', where=where, saved=a.pos, loaded=b.pos)
        elif hasattr(a, key):
            expect(same_value(getattr(a, key), getattr(b, key)), 'attribute differs after loading', where=where, attribute=key, saved=getattr(a, key), loaded=getattr(b, key))
    expect(isinstance(a, JoinedMinimizationResult) == isinstance(b, JoinedMinimizationResult), 'kind of result differs after loading', where=where)
    if isinstance(a, JoinedMinimizationResult):
        check_min_result(a.child, b.child, where + ' (second stage)', cs)
        check_min_result(a.ancestor, b.ancestor, where + ' (first stage)')


def check_cs(a, b):
    expect(np.array_equal(a.limits, b.limits) and bool(a.periodic) == bool(b.periodic) and a.dim == b.dim and np.array_equal(a.size, b.size),
           'coordinate system differs after loading', saved=a, loaded=b)


def check_container(a, b):
    check_cs(a.coordinate_system, b.coordinate_system)
    expect(a.dist_cutoff == b.dist_cutoff and a.gap_threshold == b.gap_threshold, 'thresholds differ after loading', saved=(a.dist_cutoff, a.gap_threshold), loaded=(b.dist_cutoff, b.gap_threshold))
    for name in ('nodes', 'rejected_results'):
        x, y = list(getattr(a, name)), list(getattr(b, name))
        expect(len(x) == len(y), 'number of {} differs after loading'.format(name), saved=len(x), loaded=len(y))
        for i, (r, s) in enumerate(zip(x, y)):
            check_min_result(r, s, '{}[{}]'.format(name, i), a.coordinate_system)
    x, y = [np.asarray(p) for p in a.refined_results], [np.asarray(p) for p in b.refined_results]
    expect(len(x) == len(y) and all(same_point(p, q, a.coordinate_system) for p, q in zip(x, y)), 'refined positions differ after loading', saved=x, loaded=y)


def tuples(objs):
    return [tuple(tuple(float(z) for z in y) if np.ndim(y) else float(y) for y in x) for x in objs]


def check_state(a, b, pos=True):
    check_container(a.result, b.result)
    x, y = tuples(a.simplex_queue.objects), tuples(b.simplex_queue.objects)
    n = getattr(a.simplex_queue, 'num_running', 0)
    expect(len(x) == len(y) and x[n:] == y[n:] and sorted(x[:n]) == sorted(y[:n]), 'queued simplices differ after loading', saved=x, loaded=y, running=n)
    x, y = tuples(a.position_queue.objects), tuples(b.position_queue.objects)
    expect(x == y, 'queued positions differ after loading', saved=x, loaded=y)


def many(rng, n):
    return int(rng.integers(0, n)) if rng.integers(12) else int(rng.integers(100, 500))


def gen_state(rng, ctx, dim=None):
    SimplexQueue = need('nodefinder.search._queue', 'SimplexQueue')
    PositionQueue = need('nodefinder.search._queue', 'PositionQueue')
    dim = int(rng.integers(1, 4)) if dim is None else dim
    limits = gen_limits(rng, dim, exact=bool(rng.integers(2)))
    lower, upper = bounds(limits)
    size = upper - lower
    cs = CoordinateSystem(limits=limits, periodic=bool(rng.integers(2)))
    cutoff = float(np.max(size) * rng.choice([.1, .3, 1.]))
    thr = float(rng.choice([1e-3, .5, 0.]))
    pts = gen_points(rng, limits, lower, size, cutoff, int(rng.choice([0, 1, 3, 7])) if rng.integers(25) else 150)
    con = SearchResultContainer(coordinate_system=cs, gap_threshold=thr, dist_cutoff=cutoff, minimization_results=[gen_any_result(rng, dim, p) for p in pts])
    for p in gen_points(rng, limits, lower, size, cutoff, int(rng.choice([0, 0, 1, 4]))):
        con.set_refined(np.array(p))
    sq = call(SimplexQueue, list(rng.normal(size=(many(rng, 5), dim + 1, dim))))
    for _ in range(int(rng.integers(0, 4))):
        if sq.has_queued:
            obj = sq.pop_queued()
            if rng.integers(3) == 0:
                sq.set_finished(obj)
    pq = call(PositionQueue, list(rng.normal(size=(many(rng, 4), dim))))
    state = ControllerState(result=con, simplex_queue=sq, position_queue=pq)
    ctx.input(limits=limits, periodic=cs.periodic, cutoff=cutoff, threshold=thr, results=[(type(r).__name__, r.pos) for r in con.minimization_results],
              refined=list(con.refined_results), simplices=len(sq.objects), positions=pq.objects)
    return state


# ------------------------------------------------------------------- C21
class _Fault(Exception):
    pass


class _Crash(BaseException):
    pass


class Patches:
    """Replace functions of modules, and restore them."""

    def __init__(self):
        self.saved = []

    def set(self, mod, name, val):
        if hasattr(mod, name):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, val)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for mod, name, val in reversed(self.saved):
            setattr(mod, name, val)


def gen_controller(rng, path, dim=2, **kw):
    Controller = need('nodefinder.search._controller', 'Controller')
    args = dict(
        gap_fct=lambda x: 1., limits=[(0., 1.)] * dim, periodic=True, initial_state=None, save_file=path, load=False, load_quiet=True,
        initial_mesh_size=2, force_initial_mesh=False, gap_threshold=1e-3, feature_size=.3, nelder_mead_kwargs={}, num_minimize_parallel=2, refinement_stencil='auto')
    args.update(kw)
    con = call(Controller, **args)
    if not hasattr(con, 'save'):
        raise Skip('no save')
    return con


def change(rng, state, dim=2):
    what = int(rng.integers(6))
    if what == 5:
        if not state.position_queue.has_queued:
            state.position_queue.add_objects([rng.random(dim)])
            state.needs_saving = False
        state.position_queue.pop_queued()
    elif what == 0:
        state.result.add_result(gen_any_result(rng, dim, rng.random(dim)))
    elif what == 1:
        state.result.set_refined(rng.random(dim))
    elif what == 2:
        state.simplex_queue.add_objects([rng.normal(size=(dim + 1, dim))])
    elif what == 3:
        state.position_queue.add_objects([rng.random(dim)])
    else:
        if not state.simplex_queue.has_queued:
            state.simplex_queue.add_objects([rng.normal(size=(dim + 1, dim))])
            state.needs_saving = False
        obj = state.simplex_queue.pop_queued()
        state.needs_saving = False
        state.simplex_queue.set_finished(obj)
    return ['result', 'refined', 'simplex', 'position', 'finished', 'position removed'][what]


@case('C21', weight=2)
def atomic_save(rng, ctx):
    mod = __import__('nodefinder.search._controller', fromlist=['x'])
    with Scratch() as path:
        fname = os.path.join(path, 'state.hdf5')
        con = gen_controller(rng, fname)
        existed = bool(rng.integers(3))
        if existed:
            con.save()
            change(rng, con.state)
        old = open(fname, 'rb').read() if existed else None
        expect(not existed or old, 'nothing was saved')
        fault = _Crash if rng.integers(2) else _Fault
        point = str(rng.choice(['before write', 'partial write', 'after write', 'before rename', 'after rename']))
        ctx.input(existed=existed, fault=fault.__name__, at=point)
        hit = []
        real_save = io.save

        def fake_save(obj, target, *args, **kw):
            if point == 'before write':
                hit.append(point)
                raise fault()
            if point == 'partial write':
                with open(target, 'wb') as f:
                    f.write(b'partial')
                hit.append(point)
                raise fault()
            res = real_save(obj, target, *args, **kw)
            if point == 'after write':
                hit.append(point)
                raise fault()
            return res

        def wrap_rename(real):
            def fake(src, dst, *args, **kw):
                if point == 'before rename':
                    hit.append(point)
                    raise fault()
                res = real(src, dst, *args, **kw)
                if point == 'after rename' and fault is _Crash:
                    hit.append(point)
                    raise fault()
                return res
            return fake

        raised = None
        with Patches() as patch:
            patch.set(mod.io, 'save', fake_save)
            if getattr(mod, 'save', None) is real_save:
                patch.set(mod, 'save', fake_save)
            for name in ('rename', 'replace', 'link'):
                patch.set(os, name, wrap_rename(getattr(os, name)))
            try:
                con.save()
            except (_Fault, _Crash) as exc:
                raised = exc
        files = sorted(os.listdir(path))
        if not hit:
            ctx.trivial()
            if raised is None and os.path.exists(fname):
                check_state(con.state, io.load(fname))
            return
        expect(raised is not None, 'a failed save is not reported', at=point)
        now = open(fname, 'rb').read() if os.path.exists(fname) else None
        if point != 'after rename':
            ok = now == old
            if not ok and now is not None and fault is _Crash:
                try:
                    check_state(con.state, io.load(fname))
                    ok = True
                except OSError:
                    ok = False
            expect(ok, 'a failed save changed the save file', at=point, existed=existed, size=None if now is None else len(now))
        else:
            check_state(con.state, io.load(fname))
        if fault is _Fault:
            expect(files == (['state.hdf5'] if existed else []), 'a failed save left files behind', files=files)
            expect(con.state.needs_saving, 'the state is not marked as changed after a failed save')
        # a later save works
        con.save()
        expect(os.path.exists(fname), 'nothing saved after an earlier failure', at=point)
        check_state(con.state, io.load(fname))


class Watched:
    """Looks at a file at every call and return of any function in between."""

    def __init__(self, fname):
        self.fname = fname
        self.last = self.seen = None
        self.contents = []

    def look(self, *args):
        try:
            stat = os.stat(self.fname)
            now = stat.st_ino, stat.st_size, stat.st_mtime_ns
        except OSError:
            now = None
        if now != self.last or not self.contents:
            self.last = now
            data = None
            if now is not None:
                fd = os.open(self.fname, os.O_RDONLY)
                data = os.read(fd, 1 << 26)
                os.close(fd)
            if len(self.contents) < 200 and (not self.contents or self.contents[-1] != data):
                self.contents.append(data)

    def __enter__(self):
        self.look()
        self.old = sys.getprofile()
        sys.setprofile(self.look)
        return self

    def __exit__(self, *exc):
        sys.setprofile(self.old)
        self.look()


@case('C21')
def every_instant(rng, ctx):
    """The save file, whenever the saving could be interrupted."""
    with Scratch() as path:
        fname = os.path.join(path, 'state.hdf5')
        con = gen_controller(rng, fname)
        if rng.integers(3):
            con.save()
            for _ in range(int(rng.integers(1, 4))):
                change(rng, con.state)
        ctx.input(existed=os.path.exists(fname))
        with Watched(fname) as watch:
            con.save()
        check_state(con.state, io.load(fname))
        for k, data in enumerate(watch.contents[1:]):
            if data == watch.contents[0]:
                continue
            expect(data is not None, 'the save file is gone during the saving', instant=k)
            copy = os.path.join(path, 'copy_{}.hdf5'.format(k))
            with open(copy, 'wb') as f:
                f.write(data)
            try:
                loaded = io.load(copy)
            except Exception as exc:
                expect(False, 'the save file is incomplete during the saving', instant=k, size=len(data), error=type(exc).__name__)
            check_state(con.state, loaded)


@case('C21', weight=2)
def saved_if_changed(rng, ctx):
    mod = __import__('nodefinder.search._controller', fromlist=['x'])
    with Scratch() as path:
        relative = bool(rng.integers(4) == 0)
        fname = 'state.hdf5' if relative else os.path.join(path, 'state.hdf5')
        cwd = os.getcwd()
        try:
            os.chdir(path)
            con = gen_controller(rng, fname)
            writes = []
            real_save = io.save

            def counting(obj, target, *args, **kw):
                writes.append(target)
                return real_save(obj, target, *args, **kw)

            ops = []
            with Patches() as patch:
                patch.set(mod.io, 'save', counting)
                con.save()
                expect(os.path.exists(fname), 'the initial state was not saved')
                for _ in range(int(rng.integers(1, 6))):
                    expect(not con.state.needs_saving, 'marked as changed after saving', ops=ops)
                    before = len(writes), os.stat(fname).st_ino, open(fname, 'rb').read()
                    con.save()
                    expect(before == (len(writes), os.stat(fname).st_ino, open(fname, 'rb').read()), 'saved although nothing changed', ops=ops)
                    for _ in range(int(rng.integers(1, 3))):
                        ops.append(change(rng, con.state))
                    ctx.input(ops=ops, relative=relative)
                    expect(con.state.needs_saving, 'a change is not marked as unsaved', ops=ops)
                    con.save()
                    check_state(con.state, io.load(fname))
                    expect(os.listdir(path) == ['state.hdf5'], 'files left behind', files=os.listdir(path))
            if rng.integers(4) == 0:
                con2 = gen_controller(rng, None)
                con2.save()
                expect(os.listdir(path) == ['state.hdf5'], 'saved without a save file')
        finally:
            os.chdir(cwd)


@case('C21', weight=2)
def file_during_and_after_search(rng, ctx):
    dim = int(rng.integers(1, 3))
    lower, upper = np.zeros(dim), np.ones(dim)
    kind, roots, offset, gap = gen_gap(rng, lower, upper, True)
    if kind == 2:
        kind, gap = 0, (lambda x: float(np.linalg.norm(np.sin(np.pi * (np.asarray(x) - roots[0])))))
    seen = []
    with Scratch() as path:
        fname = os.path.join(path, 'state.hdf5')
        old = bool(rng.integers(2))
        if old:
            io.save(gen_state(rng, ctx, dim), fname)
        g = Gap(gap, rng, fail_at=int(rng.integers(5, 60)) if rng.integers(3) == 0 else None, exc=_Fault())

        async def watched(x):
            if len(g.calls) % 29 == 0 and len(seen) < 6 and os.path.exists(fname):
                state = io.load(fname)  # raises if the file is not complete
                seen.append(len(state.result.minimization_results))
            return await g.coro(x)

        kw = dict(limits=[(0, 1)] * dim, initial_mesh_size=(2, ) * dim, feature_size=.35, refinement_stencil=None if rng.integers(2) else 'auto', save_file=fname, save_delay=float(rng.choice([0., 1e-3, 5.])),
                  use_fake_potential=bool(rng.integers(2)), num_minimize_parallel=int(rng.choice([1, 3, 50])))
        ctx.input(dim=dim, gap=(kind, roots, offset), old_file=old, fail_at=g.fail_at, **kw)
        try:
            res = search.run(watched, **kw)
        except _Fault:
            res = None
        expect(os.path.exists(fname), 'nothing was saved')
        expect(os.listdir(path) == ['state.hdf5'], 'files left behind', files=os.listdir(path))
        state = io.load(fname)
        if res is not None:
            check_container(res, state.result)
            expect(not list(state.simplex_queue.objects) and not list(state.position_queue.objects), 'the final state is not the one saved')
        ctx.input(seen=len(seen))


# ------------------------------------------------------------------- C22
@case('C22', weight=3)
def state_round_trip(rng, ctx):
    state = gen_state(rng, ctx)
    with Scratch() as path:
        fname = os.path.join(path, 'x.hdf5')
        before = tuples(state.simplex_queue.objects), tuples(state.position_queue.objects)
        if rng.integers(3):
            io.save(state, fname)
            loaded = io.load(fname)
            check_state(state, loaded)
            if rng.integers(3) == 0:
                io.save(loaded, fname)
                check_state(state, io.load(fname))
        else:
            io.save(state.result, fname)
            check_container(state.result, io.load(fname))
        expect(before == (tuples(state.simplex_queue.objects), tuples(state.position_queue.objects)), 'saving changed the queues')


@case('C22', weight=1)
def real_results_round_trip(rng, ctx):
    dim = int(rng.integers(1, 3))
    lower, upper = np.zeros(dim), np.ones(dim)
    kind, roots, offset, gap = gen_gap(rng, lower, upper, True)
    kw = dict(limits=[(0, 1)] * dim, initial_mesh_size=(2, ) * dim, feature_size=.3, use_fake_potential=bool(rng.integers(2)), refinement_stencil=None,
              nelder_mead_kwargs=dict(maxfev=int(rng.integers(1, 60)), keep_history=bool(rng.integers(5))))
    ctx.input(gap=(kind, roots, offset), **kw)
    res = search.run(gap, **kw)
    with Scratch() as path:
        fname = os.path.join(path, 'x.hdf5')
        io.save(res, fname)
        check_container(res, io.load(fname))


@case('C22', weight=1)
def coordinate_system_round_trip(rng, ctx):
    dim = int(rng.integers(1, 5))
    limits = gen_limits(rng, dim)
    cs = CoordinateSystem(limits=limits, periodic=bool(rng.integers(2)))
    ctx.input(limits=limits, periodic=cs.periodic)
    with Scratch() as path:
        fname = os.path.join(path, 'x.hdf5')
        io.save(cs, fname)
        loaded = io.load(fname)
        check_cs(cs, loaded)
        p, q = rng.normal(size=(2, dim)) * 3
        expect(cs.distance(p, q) == loaded.distance(p, q), 'distances differ after loading')


# ------------------------------------------------------------------- C23
def gen_graph(rng, dim, n=None):
    n = int(rng.integers(1, 9)) if n is None else n
    if rng.integers(12) == 0:
        n = int(rng.integers(100, 700))  # a long line
    g = nx.Graph()
    pts = [tuple(float(x) for x in rng.random(dim)) for _ in range(n)]
    g.add_nodes_from(pts)
    for _ in range(int(rng.integers(0, 2 * n))):
        i, j = rng.integers(n, size=2)
        if i != j:
            g.add_edge(pts[i], pts[j])
    return g


def gen_shape(rng, dim):
    kind = rng.integers(4)
    if kind == 0:
        return None
    if kind == 1:
        return NodalPoint(position=rng.random(dim))
    g = gen_graph(rng, dim)
    cnt = Counter(d for _, d in g.degree)
    cnt.pop(2, None)
    return NodalLine(graph=g, degree_count=cnt)


def check_shape(a, b):
    expect(type(a) is type(b), 'kind of shape differs after loading', saved=a, loaded=b)
    if isinstance(a, NodalPoint):
        expect(np.array_equal(np.asarray(a.position), np.asarray(b.position)), 'position differs after loading', saved=a.position, loaded=b.position)
    elif isinstance(a, NodalLine):
        def nodes(g):
            return {tuple(float(x) for x in n) for n in g.nodes}

        def edges(g):
            return {frozenset(tuple(float(x) for x in n) for n in e) for e in g.edges}

        expect(nodes(a.graph) == nodes(b.graph) and len(a.graph.nodes) == len(b.graph.nodes), 'nodes of the line differ after loading', saved=len(a.graph.nodes), loaded=len(b.graph.nodes))
        expect(edges(a.graph) == edges(b.graph), 'edges of the line differ after loading', saved=len(a.graph.edges), loaded=len(b.graph.edges))
        expect({int(k): int(v) for k, v in dict(a.degree_count).items()} == {int(k): int(v) for k, v in dict(b.degree_count).items()}, 'degree counts differ after loading', saved=a.degree_count, loaded=b.degree_count)
        expect(a.shape_name == b.shape_name, 'shape name differs after loading', saved=a.shape_name, loaded=b.shape_name)


@case('C23', weight=2)
def identification_round_trip(rng, ctx):
    dim = int(rng.integers(1, 4))
    limits = gen_limits(rng, dim)
    cs = CoordinateSystem(limits=limits, periodic=bool(rng.integers(2)))
    results = []
    for _ in range(int(rng.choice([0, 1, 2, 4]))):
        n = int(rng.integers(1, 6)) if rng.integers(20) else int(rng.integers(100, 700))
        results.append(IdentificationResult(
            positions=[tuple(x) for x in rng.random((n, dim))] if rng.integers(2) else list(rng.random((n, dim))),
            dimension=[None, 0, 1, 2, 3][int(rng.integers(5))], shape=gen_shape(rng, dim)))
    fs = float(np.exp(rng.normal()))
    con = IdentificationResultContainer(coordinate_system=cs, feature_size=fs, results=results)
    ctx.input(limits=limits, feature_size=fs, results=results)
    with Scratch() as path:
        fname = os.path.join(path, 'x.hdf5')
        for r in results:
            io.save(r, fname)
            check_ident(r, io.load(fname))
        io.save(con, fname)
        new = io.load(fname)
        check_cs(cs, new.coordinate_system)
        expect(new.feature_size == fs, 'feature size differs after loading', saved=fs, loaded=new.feature_size)
        expect(len(list(new)) == len(results) and len(new) == len(results), 'number of objects differs after loading', saved=len(results), loaded=len(list(new)))
        for a, b in zip(results, new):
            check_ident(a, b)


def check_ident(a, b):
    expect(len(a.positions) == len(b.positions) and all(tuple(p) == tuple(q) for p, q in zip(a.positions, b.positions)), 'positions differ after loading', saved=a.positions, loaded=b.positions)
    expect((a.dimension is None) == (b.dimension is None) and (a.dimension is None or int(a.dimension) == int(b.dimension)), 'dimension differs after loading', saved=a.dimension, loaded=b.dimension)
    check_shape(a.shape, b.shape)


@case('C23', weight=1)
def real_identification_round_trip(rng, ctx):
    import nodefinder.identify as identify
    dim = int(rng.integers(1, 4))
    cs = CoordinateSystem(limits=[(0, 1)] * dim, periodic=bool(rng.integers(2)))
    pts = rng.random((int(rng.integers(1, 15)), dim)) * rng.choice([.2, 1.])
    fs = float(rng.choice([.05, .2, .5]))
    method = str(rng.choice(['shortest_path', 'dominating_set', 'ballistic']))
    ctx.input(positions=pts, feature_size=fs, method=method, periodic=cs.periodic)
    res = identify.run_from_positions(pts, coordinate_system=cs, feature_size=fs, evaluate_line_method=method)
    with Scratch() as path:
        fname = os.path.join(path, 'x.hdf5')
        io.save(res, fname)
        new = io.load(fname)
        check_cs(cs, new.coordinate_system)
        expect(len(list(new)) == len(list(res)), 'number of objects differs after loading')
        for a, b in zip(res, new):
            check_ident(a, b)
