"""C07 - C10: neighbour lookup, result container, fake potential."""
import collections

import numpy as np

from .common import case, expect, gen_limits, gen_pos, bounds, need, call, Skip
from .coord import images

from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search.result import SearchResultContainer, MinimizationResult


def make_result(pos, value=0., success=True, **kw):
    return MinimizationResult(pos=np.array(pos, dtype=float), value=value, success=success, **kw)


def setup(rng, ctx, dims=(1, 4)):
    dim = int(rng.integers(*dims))
    limits = gen_limits(rng, dim, exact=bool(rng.integers(2)))
    lower, upper = bounds(limits)
    size = upper - lower
    periodic = bool(rng.integers(2))
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    kind = rng.integers(6)
    if kind == 0:
        cutoff = float(np.min(size) * rng.choice([.5, .34, .3, 1 / 3., .25]))
    elif kind == 1:
        cutoff = float(np.max(size) * rng.uniform(.3, 3.))
    elif kind == 2:
        cutoff = float(np.min(size) * rng.uniform(.01, .2))
    elif kind == 3:
        cutoff = float(rng.choice(size) * rng.uniform(.3, 1.1))
    elif kind == 4:
        cutoff = float(np.min(size) * 1e-3) if dim < 3 else float(np.min(size) * .05)
    else:
        cutoff = 0. if rng.integers(4) == 0 and dim < 3 else float(np.exp(rng.uniform(-3, 2)))
    if dim == 3 and cutoff < .02 * np.max(size):
        cutoff = float(.02 * np.max(size))
    ctx.input(limits=limits, periodic=periodic, dist_cutoff=cutoff)
    return dim, limits, lower, upper, size, periodic, cs, cutoff


def gen_points(rng, limits, lower, size, cutoff, n, inside=False):
    """Positions; many of them close to each other, the boundaries or cell boundaries."""
    pts = []
    dim = len(lower)
    for _ in range(n):
        kind = rng.integers(5)
        if pts and kind == 0:
            base = pts[rng.integers(len(pts))]
            vec = rng.normal(size=dim)
            vec *= max(cutoff, 1e-3) * rng.uniform(.2, 1.2) / np.linalg.norm(vec)
            p = base + vec
        elif pts and kind == 1:
            base = pts[rng.integers(len(pts))]
            vec = np.zeros(dim)
            vec[rng.integers(dim)] = rng.choice([-1, 1]) * cutoff * rng.choice([.5, .99, .9999, 1.01])
            p = base + vec
        elif kind == 2:
            p = lower + rng.choice([0., 1., 1e-9, 1 - 1e-9, .5, -1e-20, 1 / 3.], size=dim) * size
        elif kind == 3 and not inside:
            p = lower + rng.uniform(-1.5, 2.5, size=dim) * size
        else:
            p = lower + rng.random(dim) * size
        pts.append(p)
    return pts


def reference_distances(query, positions, size, periodic):
    if not len(positions):
        return np.zeros(0)
    return images(np.asarray(positions) - query, size, periodic)


def nearest(value, array):
    return np.min(np.abs(np.asarray(array) - value)) if len(array) else np.inf


def build(rng, ctx, setup_res, n=None):
    dim, limits, lower, upper, size, periodic, cs, cutoff = setup_res
    n = int(rng.integers(0, 14)) if n is None else n
    pts = gen_points(rng, limits, lower, size, cutoff, n)
    if n and rng.integers(25) == 0:
        # a crowd
        base = lower + rng.random(dim) * size
        pts = pts + [base + cutoff * .4 * rng.normal(size=dim) for _ in range(int(rng.choice([80, 150, 400])))]
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=1e-3, dist_cutoff=cutoff)
    for p in pts:
        container.add_result(make_result(p, value=0., success=True))
        if rng.integers(3) == 0:  # rejected ones are never reported
            container.add_result(make_result(p + .1 * cutoff, value=1., success=True))
        if rng.integers(5) == 0:
            container.add_result(make_result(p - .1 * cutoff, value=0., success=False))
    ctx.input(points=pts)
    return pts, container


def check_lookup(container, query, nodes, size, periodic, cutoff, tol, complete, sound, which):
    """nodes: list of stored positions (normalised)."""
    ref = reference_distances(query, nodes, size, periodic)
    differs = np.array([bool(np.any(np.asarray(p) != query)) for p in nodes], dtype=bool)
    for name, raw in which:
        got = sorted(float(x) for x in raw)
        relevant = ref if name == 'refined' else ref[differs] if len(ref) else ref
        if complete:
            # every node well within the cutoff, as often as it is stored
            must = sorted(d for d in relevant if d < cutoff - tol)
            rest = list(got)
            for d in must:
                i = int(np.argmin(np.abs(np.array(rest) - d))) if rest else -1
                expect(i >= 0 and abs(rest[i] - d) <= tol,
                       'a node within the cutoff is missing from the {} lookup'.format(name),
                       query=query, distance=d, cutoff=cutoff, reported=got)
                rest.pop(i)
        if sound:
            rest = list(relevant)
            for d in got:
                i = int(np.argmin(np.abs(np.array(rest) - d))) if rest else -1
                expect(i >= 0 and abs(rest[i] - d) <= tol,
                       'the {} lookup reports a distance (too often) that no stored node has'.format(name),
                       query=query, distance=d, reported=got, stored=sorted(relevant))
                rest.pop(i)


def lookup_case(rng, ctx, complete, sound):
    stp = setup(rng, ctx)
    dim, limits, lower, upper, size, periodic, cs, cutoff = stp
    pts, container = build(rng, ctx, stp)
    refined = gen_points(rng, limits, lower, size, cutoff, int(rng.integers(0, 6)))
    refined = [np.array(p) for p in refined]
    for p in refined:
        container.set_refined(p)
    ctx.input(refined=refined)
    if not pts:
        ctx.trivial()
    nodes = [np.asarray(x.pos) for x in container.nodes]
    tol = 1e-9 * (1 + float(np.max(np.abs(lower)) + np.max(np.abs(upper)) + cutoff))
    queries = [q for q in gen_points(rng, limits, lower, size, cutoff, 4)]
    if nodes:
        queries.append(np.array(nodes[rng.integers(len(nodes))]))
        q = np.array(nodes[rng.integers(len(nodes))])
        vec = rng.normal(size=dim)
        queries.append(q + vec / np.linalg.norm(vec) * cutoff * rng.uniform(0, .999))
        if periodic:
            queries.append(q + rng.integers(-2, 3, size=dim) * size)
    for q in queries:
        before = len(container.nodes), [tuple(x.pos) for x in container.nodes], len(container.rejected_results)
        lazy = list(container.get_neighbour_distance_iterator(q))
        full = list(container.get_all_neighbour_distances(q))
        ref = list(container.get_refined_neighbour_distance_iterator(q))
        check_lookup(container, q, nodes, size, periodic, cutoff, tol, complete, sound, [('lazy', lazy), ('complete', full)])
        check_lookup(container, q, refined, size, periodic, cutoff, tol, complete, sound, [('refined', ref)])
        if sound:
            expect(len(lazy) == len(full) and np.all(np.abs(np.sort(lazy) - np.sort(full)) <= tol),
                   'lazy and complete lookup differ', query=q, lazy=lazy, complete=full)
            after = len(container.nodes), [tuple(x.pos) for x in container.nodes], len(container.rejected_results)
            expect(before == after, 'the lookup changed the container', query=q)


@case('C07')
def lookup_is_complete(rng, ctx):
    lookup_case(rng, ctx, True, False)


@case('C07')
def pairs_across_cells(rng, ctx):
    """One node, one query, at a distance just below the cutoff; any box and cell count."""
    dim, limits, lower, upper, size, periodic, cs, cutoff = setup(rng, ctx)
    if cutoff == 0:
        ctx.trivial()
        return
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=1e-3, dist_cutoff=cutoff)
    p = gen_points(rng, limits, lower, size, cutoff, 1)[0]
    container.add_result(make_result(p))
    container.set_refined(p)
    p = np.asarray(container.nodes[0].pos)
    tol = 1e-9 * (1 + float(np.max(np.abs(lower)) + np.max(np.abs(upper)) + cutoff))
    for _ in range(6):
        vec = np.zeros(dim)
        if rng.integers(2):
            vec[rng.integers(dim)] = rng.choice([-1, 1])
        else:
            vec = rng.normal(size=dim)
        q = p + vec / np.linalg.norm(vec) * cutoff * rng.choice([.999999, .9, .5])
        if periodic:
            q = q + rng.integers(-1, 2, size=dim) * size
        ctx.input(node=p, query=q)
        check_lookup(container, q, [p], size, periodic, cutoff, tol, True, False, [
            ('lazy', container.get_neighbour_distance_iterator(q)),
            ('complete', container.get_all_neighbour_distances(q)),
            ('refined', container.get_refined_neighbour_distance_iterator(q)),
        ])


@case('C07')
def across_corners(rng, ctx):
    """Node and query on different sides of a corner, an edge or a face of a cell; more dimensions."""
    dim = int(rng.integers(1, 6))
    limits = gen_limits(rng, dim, exact=bool(rng.integers(2)))
    lower, upper = bounds(limits)
    size = upper - lower
    periodic = bool(rng.integers(2))
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    cutoff = float(np.max(size) * rng.uniform(.15, .6)) if dim > 3 else float(np.min(size) * rng.uniform(.1, .6))
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=1e-3, dist_cutoff=cutoff)
    cells = np.minimum(100, np.maximum(1, (size / cutoff).astype(int)))
    ctx.input(limits=limits, periodic=periodic, dist_cutoff=cutoff)
    for _ in range(3):
        corner = lower + np.array([rng.integers(0, n + 1) / n for n in cells]) * size
        away = rng.choice([-1, 0, 1], size=dim, p=[.4, .2, .4]) * rng.choice([1e-6, .01, .3]) * cutoff / np.sqrt(dim)
        p, q = corner + away, corner - away
        container.add_result(make_result(p))
        container.set_refined(p)
        ctx.input(node=p, query=q)
        nodes = [np.asarray(x.pos) for x in container.nodes]
        refined = [np.asarray(x) for x in container.refined_results]
        tol = 1e-9 * (1 + float(np.max(np.abs(lower)) + np.max(np.abs(upper)) + cutoff))
        check_lookup(container, q, nodes, size, periodic, cutoff, tol, True, True, [
            ('lazy', container.get_neighbour_distance_iterator(q)), ('complete', container.get_all_neighbour_distances(q))])
        check_lookup(container, q, refined, size, periodic, cutoff, tol, True, True, [('refined', container.get_refined_neighbour_distance_iterator(q))])


@case('C07')
@case('C08')
def far_outside(rng, ctx):
    """Positions many box lengths away from an open box, on both sides of it."""
    dim = int(rng.integers(1, 3))
    size = np.exp(rng.normal(size=dim))
    lower = rng.normal(size=dim)
    n = rng.choice([1, 2, 3, 10, 50, 90, 100])
    cutoff = float(np.min(size)) / (n + .5)
    cs = CoordinateSystem(limits=list(zip(lower, lower + size)), periodic=False)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=1e-3, dist_cutoff=cutoff)
    ctx.input(lower=lower, size=size, cutoff=cutoff)
    nodes, refined, queries = [], [], []
    # among them distances at which integers of fewer bits would wrap around
    borders = [(2.**k + j) / m for k in (7, 8, 15, 16, 31, 32) for m in (1, n, 100) for j in (-1, 0, 1)]
    for _ in range(4):
        far = float(rng.choice([rng.choice(borders), np.exp(rng.uniform(0, 15))])) * rng.choice([-1, 1])
        base = lower + rng.random(dim) * size
        i = int(rng.integers(dim))
        base[i] = lower[i] + far * size[i]
        for _ in range(4):
            p = base + rng.uniform(-1, 1, size=dim) * cutoff / dim
            nodes.append(p)
            container.add_result(make_result(p))
            refined.append(base + rng.uniform(-1, 1, size=dim) * cutoff / dim)
            container.set_refined(refined[-1])
            queries.append(base + rng.uniform(-1, 1, size=dim) * cutoff / dim)
    tol = 1e-7 * cutoff + 1e-14 * max(float(np.max(np.abs(p))) for p in nodes)
    for q in queries:
        check_lookup(container, q, [np.asarray(x.pos) for x in container.nodes], size, False, cutoff, tol, True, True,
                     [('lazy', list(container.get_neighbour_distance_iterator(q))), ('complete', list(container.get_all_neighbour_distances(q)))])
        check_lookup(container, q, refined, size, False, cutoff, tol, True, True, [('refined', list(container.get_refined_neighbour_distance_iterator(q)))])


@case('C07')
@case('C08')
def close_but_different(rng, ctx):
    """Only nodes at exactly the position of the query are left out."""
    dim = int(rng.integers(1, 4))
    far = rng.choice([0., 1., -7., 1e3, 1e5], size=dim)
    limits = [(float(x), float(x + s)) for x, s in zip(far, rng.choice([1., 2., .5], size=dim))]
    lower, upper = bounds(limits)
    size = upper - lower
    cs = CoordinateSystem(limits=limits, periodic=bool(rng.integers(2)))
    cutoff = float(rng.uniform(.1, .6))
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=1e-3, dist_cutoff=cutoff)
    container.add_result(make_result(lower + rng.uniform(.2, .8, size=dim) * size))
    p = np.asarray(container.nodes[0].pos)
    steps = [0., float(np.spacing(np.max(np.abs(p)))), 1e-12, 1e-9, 1e-7, 1e-4]
    vec = np.zeros(dim)
    vec[rng.integers(dim)] = 1
    q = p + vec * steps[int(rng.integers(len(steps)))]
    ctx.input(limits=limits, periodic=cs.periodic, dist_cutoff=cutoff, node=p, query=q)
    want = int(np.any(q != p))
    for name, got in (('lazy', container.get_neighbour_distance_iterator(q)), ('complete', container.get_all_neighbour_distances(q))):
        got = list(got)
        expect(len(got) == want, 'a node close to the query is not reported' if want else 'a node at the position of the query is reported', lookup=name, reported=got, expected=want)


@case('C08')
def lookup_is_sound(rng, ctx):
    lookup_case(rng, ctx, False, True)


@case('C08')
def small_boxes(rng, ctx):
    """Few cells per dimension: the same cell is a neighbour in several ways."""
    dim = int(rng.integers(1, 4))
    limits = gen_limits(rng, dim, exact=True)
    lower, upper = bounds(limits)
    size = upper - lower
    periodic = bool(rng.integers(4))
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    cutoff = float(rng.choice(size) * rng.choice([2., 1., .5, .4, .3]))
    ctx.input(limits=limits, periodic=periodic, dist_cutoff=cutoff)
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=1e-3, dist_cutoff=cutoff)
    pts = [lower + rng.random(dim) * size for _ in range(int(rng.integers(1, 5)))]
    for p in pts:
        container.add_result(make_result(p))
        container.set_refined(p)
    ctx.input(points=pts)
    nodes = [np.asarray(x.pos) for x in container.nodes]
    q = lower + rng.random(dim) * size
    tol = 1e-9 * (1 + float(np.max(np.abs(lower)) + np.max(np.abs(upper))))
    check_lookup(container, q, nodes, size, periodic, cutoff, tol, False, True, [
        ('lazy', container.get_neighbour_distance_iterator(q)),
        ('complete', container.get_all_neighbour_distances(q)),
        ('refined', container.get_refined_neighbour_distance_iterator(q)),
    ])


# ------------------------------------------------------------------- C09
def gen_value(rng, thr):
    return float(rng.choice([thr, thr * (1 + 1e-12) + 1e-300, 0., -1., thr * .5, thr * 2, 1., np.inf, np.nextafter(thr, -1), np.nextafter(thr, 9)]))


@case('C09')
def classification(rng, ctx):
    dim, limits, lower, upper, size, periodic, cs, cutoff = setup(rng, ctx)
    thr = float(rng.choice([1e-6, 1e-3, .5, 0., 2.]))
    ctx.input(gap_threshold=thr)
    results = []
    for p in gen_points(rng, limits, lower, size, cutoff, int(rng.integers(0, 15))):
        results.append(make_result(p, value=gen_value(rng, thr), success=bool(rng.integers(4)), tag=len(results)))
    if results and rng.integers(3) == 0:
        results[-1].success = np.bool_(results[-1].success)
        results[-1].value = np.float64(results[-1].value)
    if results and rng.integers(3) == 0:
        # the same object once more
        results.insert(int(rng.integers(len(results) + 1)), results[int(rng.integers(len(results)))])
    ctx.input(results=[(r.pos, r.value, r.success) for r in results])
    n_init = int(rng.integers(0, len(results) + 1)) if rng.integers(2) else 0
    if rng.integers(25) == 0:
        # a long search
        for _ in range(int(rng.choice([150, 1100]))):
            results.insert(n_init, make_result(lower + rng.random(dim) * size, value=thr + 1. if rng.integers(20) else 0., success=bool(rng.integers(4)), tag=len(results)))
        n_init = len(results) - 2 if n_init else 0
    raw = [np.array(r.pos) for r in results]
    container = SearchResultContainer(
        coordinate_system=cs, gap_threshold=thr, dist_cutoff=cutoff, minimization_results=results[:n_init]
    )
    if hasattr(container, 'needs_saving'):
        expect(container.needs_saving, 'a new container is not marked as changed')
    exp_nodes = [r for r in results[:n_init] if r.success and r.value <= thr]
    exp_rej = [r for r in results[:n_init] if not (r.success and r.value <= thr)]

    def check():
        nodes = list(container.nodes)
        expect(len(nodes) == len(exp_nodes) and all(a is b for a, b in zip(nodes, exp_nodes)),
               'the nodes are not the accepted results in the order of insertion', nodes=[getattr(x, "tag", None) for x in nodes], expected=[x.tag for x in exp_nodes])
        expect(len(container.nodes) == len(nodes), 'length differs from iteration', length=len(container.nodes))
        expect(all(container.nodes[i] is x for i, x in enumerate(exp_nodes)), 'indexing differs from iteration')
        rej = list(container.rejected_results)
        expect(len(rej) == len(exp_rej) and all(a is b for a, b in zip(rej, exp_rej)),
               'the rejected results are not the other results', rejected=[getattr(x, "tag", None) for x in rej], expected=[x.tag for x in exp_rej])
        given = container.minimization_results
        allres = list(given)
        if isinstance(given, list):
            # a list which was given out can be changed by its owner
            given.append(None)
        expect(len(allres) == len(exp_nodes) + len(exp_rej) and all(a is b for a, b in zip(allres, exp_nodes + exp_rej)),
               'all results are not the nodes followed by the rejected ones', got=[getattr(x, "tag", None) for x in allres])

    check()
    for i, r in enumerate(results):
        if i < n_init:
            continue
        container.needs_saving = False
        is_node = container.add_result(r)
        good = bool(r.success and r.value <= thr)
        expect(bool(is_node) == good, 'wrong classification', value=r.value, success=r.success, threshold=thr, reported=is_node)
        expect(container.needs_saving, 'adding a result does not mark the container as changed')
        (exp_nodes if good else exp_rej).append(r)
        if len(results) < 100 or i % 100 == 0 or i + 1 == len(results):
            check()
    tol = 1e-9 * (1 + np.abs(lower) + np.abs(upper))
    for r, p in zip(results, raw):
        norm = np.asarray(r.pos)
        if periodic:
            k = (norm - p) / size
            expect(np.all(norm >= lower - tol) and np.all(norm <= upper + tol) and np.all(np.abs(k - np.round(k)) * size <= tol),
                   'position not normalised', before=p, after=norm)
        else:
            expect(np.array_equal(norm, p), 'non-periodic position changed', before=p, after=norm)
    ref = [np.array(p) for p in gen_points(rng, limits, lower, size, cutoff, 3)]
    for i, p in enumerate(ref):
        container.needs_saving = False
        container.set_refined(p)
        expect(container.needs_saving, 'registering a refined position does not mark the container as changed')
        expect([tuple(x) for x in container.refined_results] == [tuple(x) for x in ref[:i + 1]], 'refined positions not in order of insertion')
    check()


# ------------------------------------------------------------------- C10
def exact_setup(rng, dim=None):
    """Limits, cutoff and positions for which the distances have no rounding errors."""
    dim = int(rng.integers(1, 4)) if dim is None else dim
    size = 2.**rng.integers(1, 4, size=dim)
    lower = rng.integers(-8, 9, size=dim) / 4
    cutoff = float(2.**-rng.integers(1, 4) * rng.choice([1., 1.5, .75]))
    return dim, lower, size, cutoff, [(float(a), float(a + s)) for a, s in zip(lower, size)]


def at_distance(rng, pos, dist):
    """A position at exactly this distance."""
    vec = np.zeros(len(pos))
    axes = rng.permutation(len(pos))
    if len(pos) > 1 and rng.integers(3) == 0 and dist * 8 == int(dist * 8):
        vec[axes[0]], vec[axes[1]] = rng.choice([-1., 1.], size=2) * (3 * dist / 5, 4 * dist / 5) if (dist * 5).is_integer() else (dist, 0.)
    else:
        vec[axes[0]] = rng.choice([-1., 1.]) * dist
    return pos + vec


@case('C10', weight=.5)
def exactly_at_the_width(rng, ctx):
    """A node at exactly the width is not closer than it."""
    FakePotential = need('nodefinder.search._fake_potential', 'FakePotential')
    dim, lower, size, cutoff, limits = exact_setup(rng)
    periodic = bool(rng.integers(2))
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    width = cutoff * float(rng.choice([1., .5, .25]))
    container = SearchResultContainer(coordinate_system=cs, gap_threshold=1e-3, dist_cutoff=cutoff)
    pos = lower + rng.integers(0, 65, size=dim) / 64 * size
    container.add_result(make_result(pos))
    node = np.asarray(list(container.nodes)[0].pos)
    query = at_distance(rng, node, width)
    ctx.input(limits=limits, periodic=periodic, dist_cutoff=cutoff, width=width, node=node, position=query)
    if float(cs.distance(query, node)) != width or images(node - query, size, periodic) != width or 2 * width > size.min():
        ctx.trivial()
        return
    val = call(FakePotential, result=container, width=width)(query)
    expect(val == 0, 'not zero although no node is closer than the width', value=val)


@case('C10')
def fake_potential(rng, ctx):
    FakePotential = need('nodefinder.search._fake_potential', 'FakePotential')
    stp = setup(rng, ctx)
    dim, limits, lower, upper, size, periodic, cs, cutoff = stp
    if cutoff == 0:
        ctx.trivial()
        return
    pts, container = build(rng, ctx, stp)
    width = cutoff if rng.integers(3) else cutoff * float(rng.uniform(.05, 1.))
    pot = call(FakePotential, result=container, width=width)
    tol = 1e-9 * (1 + float(np.max(np.abs(lower)) + np.max(np.abs(upper)) + cutoff))
    for step in range(3):
        nodes = [np.asarray(x.pos) for x in container.nodes]
        queries = gen_points(rng, limits, lower, size, cutoff, 3)
        if nodes:
            q = np.array(nodes[rng.integers(len(nodes))])
            queries.append(q)
            for fac in (.5, .98, 1.02):
                vec = rng.normal(size=dim)
                queries.append(q + vec / np.linalg.norm(vec) * width * fac)
        for q in queries:
            before = [tuple(x.pos) for x in container.nodes]
            ref = reference_distances(q, nodes, size, periodic)
            ref = np.array([d for d, p in zip(ref, nodes) if np.any(p != q)])
            val = pot(q)
            expect(before == [tuple(x.pos) for x in container.nodes], 'the result was changed')
            expect(not isinstance(val, complex) and (val == 0 or val == np.inf), 'neither zero nor infinite', value=val)
            if np.any(ref < width - tol):
                expect(val == np.inf, 'not infinite close to a node', position=q, width=width, distances=np.sort(ref)[:5])
            elif np.all(ref > width + tol):
                expect(val == 0, 'not zero away from all nodes', position=q, width=width, distances=np.sort(ref)[:5])
        # nodes that are added later count as well
        for p in gen_points(rng, limits, lower, size, cutoff, 2):
            container.add_result(make_result(p))
