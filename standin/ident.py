"""C24 - C28: identification."""
import copy
import itertools
import random
import warnings
from collections import Counter

import numpy as np
import networkx as nx

from .common import case, expect, gen_limits, bounds, need, call, Skip
from .cells import gen_points, make_result

import nodefinder.identify as identify
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search.result import SearchResultContainer, ControllerState
from nodefinder.identify.result import NodalPoint, NodalLine

METHODS = ['shortest_path', 'dominating_set', 'ballistic']


def ref_dist(p, q, size, periodic):
    delta = np.asarray(q, dtype=float) - np.asarray(p, dtype=float)
    if periodic:
        delta = delta - size * np.round(delta / size)
    return np.sqrt(np.sum(delta * delta, axis=-1))


def inside(p, lower, upper):
    return tuple(float(x) for x in np.clip(p, lower, np.nextafter(upper, lower)))


def gen_cloud(rng, lower, upper, fs, n, kind=None):
    """Positions on a line, loop, surface, grid or anywhere in the box."""
    dim = len(lower)
    size = upper - lower
    kind = int(rng.integers(6)) if kind is None else kind
    t = rng.random(n)
    if kind == 0:
        pts = lower + rng.random((n, dim)) * size
    elif kind == 1:  # straight line, maybe noisy
        start, end = lower + rng.random((2, dim)) * size
        pts = start + t[:, None] * (end - start) + fs * float(rng.choice([0., .1, .4])) * rng.normal(size=(n, dim))
    elif kind == 2:  # circle
        rad = .35 * size.min() * rng.random()
        pts = np.tile((lower + upper) / 2, (n, 1))
        pts[:, 0] += rad * np.cos(2 * np.pi * t)
        pts[:, -1] += rad * np.sin(2 * np.pi * t) if dim > 1 else 0
    elif kind == 3:  # grid with steps of the feature size
        pts = lower + fs * rng.integers(0, max(2, int(min(size.min() / fs, 5))), size=(n, dim))
    elif kind == 4:  # several lines crossing
        mid = (lower + upper) / 2
        dirs = rng.normal(size=(3, dim))
        pts = mid + (t[:, None] - .5) * size.min() * dirs[rng.integers(3, size=n)] / 2
    else:
        pts = np.repeat(lower + rng.random((max(1, n // 4), dim)) * size, 4, axis=0)
        pts = pts + fs * rng.normal(size=pts.shape) * .4
    pts = [inside(p, lower, upper) for p in pts]
    if pts and rng.integers(3) == 0:
        pts = pts + [pts[int(i)] for i in rng.integers(len(pts), size=2)]
    return pts


def gen_setup(rng, dim=None):
    dim = int(rng.integers(1, 4)) if dim is None else dim
    limits = gen_limits(rng, dim, exact=bool(rng.integers(2)))
    lower, upper = bounds(limits)
    periodic = bool(rng.integers(2))
    fs = float((upper - lower).min() * rng.choice([.0625, .125, .25, .5, 1.]))
    return dim, limits, lower, upper, periodic, fs, CoordinateSystem(limits=limits, periodic=periodic)


def check_clusters(graphs, positions, size, periodic, fs):
    distinct = set(tuple(float(x) for x in p) for p in positions)
    nodes = [tuple(float(x) for x in n) for g in graphs for n in g.nodes]
    expect(len(nodes) == len(set(nodes)), 'a position is in more than one cluster', number=len(nodes), distinct=len(set(nodes)))
    expect(set(nodes) == distinct, 'the clusters do not contain exactly the given positions', missing=distinct - set(nodes), extra=set(nodes) - distinct)
    expect(all(len(g) > 0 for g in graphs), 'a cluster is empty')
    label = {n: i for i, g in enumerate(graphs) for n in g.nodes}
    eps = 1e-9 * (fs + float(np.max(size)))
    arr = np.array(nodes)
    sure = nx.Graph()
    sure.add_nodes_from(nodes)
    for i, p in enumerate(nodes):
        dist = ref_dist(arr[i], arr[i + 1:], size, periodic) if i + 1 < len(nodes) else []
        for j, d in enumerate(dist):
            q = nodes[i + 1 + j]
            same = label[p] == label[q]
            edge = same and graphs[label[p]].has_edge(p, q)
            exact = bool(np.all(np.array(p) * 64 == np.round(np.array(p) * 64)) and np.all(np.array(q) * 64 == np.round(np.array(q) * 64)))
            axis = exact and d == fs and np.count_nonzero(np.array(p) != np.array(q)) == 1
            if d <= fs - eps or axis:
                expect(edge, 'no edge between close positions', positions=(p, q), distance=d, feature_size=fs, same_cluster=same)
                sure.add_edge(p, q)
            elif d > fs + eps:
                expect(not edge, 'edge between distant positions', positions=(p, q), distance=d, feature_size=fs)
            if edge:
                attrs = list(graphs[label[p]].edges[p, q].values())
                expect(any(isinstance(x, float) and abs(x - d) <= eps for x in attrs), 'edge is not labelled with the distance', positions=(p, q), distance=d, attributes=attrs)
    for g in graphs:
        expect(nx.is_connected(g), 'a cluster is not connected', nodes=list(g.nodes))
        expect(not any(u == v for u, v in g.edges), 'a cluster contains a self-loop')
    for comp in nx.connected_components(sure):
        expect(len(set(label[n] for n in comp)) == 1, 'connected positions are in different clusters', nodes=comp)


@case('C24', weight=3)
def clusters(rng, ctx):
    create_clusters = need('nodefinder.identify._cluster', 'create_clusters')
    dim, limits, lower, upper, periodic, fs, cs = gen_setup(rng)
    pts = gen_cloud(rng, lower, upper, fs, int(rng.choice([0, 1, 2, 3, 8, 30])))
    if rng.integers(3) == 0:
        pts = [np.array(p) for p in pts]
    if pts and rng.integers(3) == 0:
        # positions which nearly coincide are different positions
        off = float(rng.choice([1e-15, 1e-12, 1e-10, 1e-8])) * (upper - lower)
        pts = pts + [type(p)(inside(np.array(p) + off * rng.normal(size=dim), lower, upper)) if isinstance(p, tuple) else np.array(inside(p + off * rng.normal(size=dim), lower, upper)) for p in pts[:3]]
    ctx.input(limits=limits, periodic=periodic, feature_size=fs, positions=pts)
    graphs = call(create_clusters, pts, feature_size=fs, coordinate_system=cs)
    check_clusters(graphs, pts, upper - lower, periodic, fs)


@case('C24', weight=.8)
def many_positions(rng, ctx):
    """Hundreds of positions, all pairs of which are compared."""
    create_clusters = need('nodefinder.identify._cluster', 'create_clusters')
    dim, limits, lower, upper, periodic, fs, cs = gen_setup(rng)
    size = upper - lower
    num = int(rng.choice([300, 700, 1300, 128, 129, 256, 257, 257, 512, 513, 1024, 1025]))
    if rng.integers(2):
        pts = lower + rng.random((num, dim)) * size
    else:
        pts = lower + size * (rng.random((num // 100 + 1, 1, dim)) + .02 * rng.normal(size=(num // 100 + 1, 100, dim))).reshape(-1, dim)[:num] % size
    pts = [inside(p, lower, upper) for p in pts]
    # about ten neighbours each
    fs = float(.6 * size.min() * (10 / num)**(1 / dim))
    ctx.input(limits=limits, periodic=periodic, feature_size=fs, number=num, positions=pts[:3])
    graphs = call(create_clusters, pts, feature_size=fs, coordinate_system=cs)
    nodes = [tuple(float(x) for x in n) for g in graphs for n in g.nodes]
    expect(len(nodes) == len(set(nodes)) and set(nodes) == set(pts), 'the clusters do not contain every position exactly once', number=len(nodes), distinct=len(set(pts)))
    eps = 1e-9 * (fs + float(np.max(size)))
    label = {n: i for i, g in enumerate(graphs) for n in g.nodes}
    arr = np.array(nodes)
    for i, p in enumerate(nodes):
        dist = ref_dist(arr[i], arr, size, periodic)
        mine = {tuple(float(x) for x in q) for q in graphs[label[p]].neighbors(p)}
        sure = {nodes[j] for j in np.flatnonzero(dist < fs - eps) if j != i}
        maybe = {nodes[j] for j in np.flatnonzero(dist <= fs + eps) if j != i}
        expect(sure <= mine, 'no edge between close positions', position=p, missing=sorted(sure - mine)[:2], feature_size=fs, number=num)
        expect(mine <= maybe, 'edge between distant positions', position=p, extra=sorted(mine - maybe)[:2], feature_size=fs)
    for g in graphs:
        expect(nx.is_connected(g), 'a cluster is not connected', nodes=list(g.nodes)[:5])


@case('C24', weight=1)
def identified_clusters(rng, ctx):
    dim, limits, lower, upper, periodic, fs, cs = gen_setup(rng)
    pts = gen_cloud(rng, lower, upper, fs, int(rng.choice([0, 1, 2, 8, 20])))
    ctx.input(limits=limits, periodic=periodic, feature_size=fs, positions=pts)
    res = identify.run_from_positions(pts, coordinate_system=cs, feature_size=fs)
    size = upper - lower
    eps = 1e-9 * (fs + float(np.max(size)))
    groups = [set(tuple(float(x) for x in p) for p in r.positions) for r in res]
    check_groups(groups, pts, size, periodic, fs, eps)


def check_groups(groups, pts, size, periodic, fs, eps):
    distinct = set(tuple(float(x) for x in p) for p in pts)
    flat = [p for g in groups for p in g]
    expect(len(flat) == len(set(flat)) and set(flat) == distinct, 'the clusters do not contain every position exactly once', clusters=groups, positions=pts)
    for g in groups:
        loose = nx.Graph()
        loose.add_nodes_from(g)
        loose.add_edges_from((p, q) for p, q in itertools.combinations(g, 2) if ref_dist(p, q, size, periodic) <= fs + eps)
        expect(nx.is_connected(loose), 'a cluster is not connected at the feature size', cluster=g)
    for g, h in itertools.combinations(groups, 2):
        close = [(p, q) for p in g for q in h if ref_dist(p, q, size, periodic) < fs - eps]
        expect(not close, 'two clusters are closer than the feature size', positions=close)


# ------------------------------------------------------------------- C25
def one_cluster(rng, ctx, dim=None, n=None, kind=None, periodic=None):
    create_clusters = need('nodefinder.identify._cluster', 'create_clusters')
    dim, limits, lower, upper, per, fs, cs = gen_setup(rng, dim)
    if periodic is not None and periodic != per:
        per, cs = periodic, CoordinateSystem(limits=limits, periodic=periodic)
    n = int(rng.choice([1, 2, 3, 4, 6, 12, 30])) if n is None else n
    for _ in range(5):
        pts = gen_cloud(rng, lower, upper, fs, n, kind)
        graphs = call(create_clusters, pts, feature_size=fs, coordinate_system=cs)
        graph = max(graphs, key=len)
        if len(graph) > 2:
            break
    if len(graphs) > 1 and rng.integers(4) == 0:
        graph = min(graphs, key=len)
    ctx.input(limits=limits, periodic=per, feature_size=fs, nodes=sorted(graph.nodes))
    return dim, lower, upper, per, fs, cs, graph


def rank(pts, tol=1e-9):
    arr = np.array(pts, dtype=float)
    svd = np.linalg.svd(arr - arr[0], compute_uv=False)
    return int(np.sum(svd > tol * max(1., svd.max(initial=0.))))


@case('C25', weight=3)
def dimension(rng, ctx):
    calculate_dimension = need('nodefinder.identify._dimension', 'calculate_dimension')
    dim, lower, upper, periodic, fs, cs, graph = one_cluster(rng, ctx)
    max_dim = int(rng.integers(1, 4))
    pos_eval = [None, 0, 1, 2, 5, 1000][int(rng.integers(6))]
    nbr_eval = [None, 0, 1, 2, 10][int(rng.integers(5))]
    ctx.input(max_dim=max_dim, min_pos_evaluations=pos_eval, min_neighbour_evaluations=nbr_eval)
    before = sorted(graph.edges), sorted(graph.nodes)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        res = call(calculate_dimension, graph=graph, feature_size=fs, coordinate_system=cs, max_dim=max_dim,
                   min_pos_evaluations=pos_eval, min_neighbour_evaluations=nbr_eval)
    expect((sorted(graph.edges), sorted(graph.nodes)) == before, 'the cluster was modified')
    if res is None:
        expect(caught, 'no warning for an undetermined dimension')
        expect(len(graph) > 1, 'the dimension of a single position is undetermined')
        return
    expect(res == int(res) and 0 <= res <= min(dim, max_dim), 'dimension out of bounds', dimension=res, space=dim, max_dim=max_dim)
    if len(graph) == 1:
        expect(res == 0, 'a single position has a dimension other than zero', dimension=res)
    if not periodic:
        expect(res <= rank(list(graph.nodes)), 'collinear or coplanar positions have a larger dimension', dimension=res, rank=rank(list(graph.nodes)))


@case('C25', weight=1)
def one_after_the_other(rng, ctx):
    """Clusters with a position in common: the dimension is that of the present one."""
    calculate_dimension = need('nodefinder.identify._dimension', 'calculate_dimension')
    dim = int(rng.integers(2, 4))
    cs = CoordinateSystem(limits=[(0., 8.)] * dim, periodic=False)
    num = int(rng.integers(3, 9))
    first = rng.integers(0, 8, size=dim) / 8. + 1.
    cloud = [tuple(first)] + [tuple(first + x) for x in rng.random((num, dim))]
    vec = rng.integers(1, 4, size=dim) / 32.
    steps = rng.permutation(np.arange(1, 33))[:num] / 8.
    line = [tuple(first)] + [tuple(first + t * vec) for t in steps]
    kw = dict(feature_size=float(rng.choice([.25, .5, 1., 2.])), coordinate_system=cs)
    if rng.integers(2):
        kw['min_pos_evaluations'] = None
    ctx.input(cloud=cloud, line=line, **{k: v for k, v in kw.items() if k != 'coordinate_system'})
    for pts in (cloud, line, cloud, line)[int(rng.integers(2)):]:
        graph = nx.Graph()
        graph.add_nodes_from(pts)
        graph.add_edges_from(itertools.combinations(pts, 2), distance=.1)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = call(calculate_dimension, graph=nx.freeze(graph), **kw)
        if pts is line:
            expect(res is None or res <= 1, 'collinear positions have a larger dimension, after another cluster', dimension=res)
        else:
            expect(res is None or 0 <= res <= dim, 'dimension out of bounds', dimension=res)


@case('C25', weight=2)
def flat_clusters(rng, ctx):
    """Exactly collinear or coplanar positions in three dimensions."""
    calculate_dimension = need('nodefinder.identify._dimension', 'calculate_dimension')
    create_clusters = need('nodefinder.identify._cluster', 'create_clusters')
    dim = int(rng.integers(2, 4))
    rk = int(rng.integers(1, dim))
    size = float(rng.choice([1., 10.]))
    scale = float(rng.choice([1., 100., .01]))
    cs = CoordinateSystem(limits=[(-size * scale, size * scale)] * dim, periodic=False)
    basis = np.linalg.qr(rng.normal(size=(dim, dim)))[0][:rk]
    if rng.integers(2):
        basis = np.eye(dim)[:rk]
    pts = [tuple(float(y) for y in x) for x in (rng.uniform(-.5, .5, size=(int(rng.integers(2, 40)), rk)) * scale) @ basis]
    fs = scale * float(rng.choice([.2, .5, 2.]))
    graph = max(call(create_clusters, pts, feature_size=fs, coordinate_system=cs), key=len)
    ctx.input(dim=dim, rank=rk, scale=scale, feature_size=fs, nodes=sorted(graph.nodes))
    nbr_eval = [None, 1, 10][int(rng.integers(3))]
    res = call(calculate_dimension, graph=graph, feature_size=fs, coordinate_system=cs, min_neighbour_evaluations=nbr_eval)
    expect(res is None or 0 <= res <= rk, 'collinear or coplanar positions have a larger dimension', dimension=res, rank=rk)


@case('C25', weight=2)
def majority(rng, ctx):
    """calculate_dimension with a given dimension for each position."""
    mod = __import__('nodefinder.identify._dimension', fromlist=['x'])
    calculate_dimension = need('nodefinder.identify._dimension', 'calculate_dimension')
    real = need('nodefinder.identify._dimension', '_get_dimension')
    dim, lower, upper, periodic, fs, cs, graph = one_cluster(rng, ctx, n=int(rng.integers(1, 25)), kind=1)
    max_dim = min(3, dim)
    probs = rng.dirichlet(np.ones(max_dim + 1) * .5)
    dims = {p: int(rng.choice(max_dim + 1, p=probs)) for p in graph.nodes}
    pos_eval = [None, 0, 1, 3, 5, 7][int(rng.integers(6))]
    ctx.input(dims=list(dims.values()), min_pos_evaluations=pos_eval)
    seen = []

    def fake(pos, *args, **kw):
        seen.append(pos)
        return dims[pos]

    mod._get_dimension = fake
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            res = call(calculate_dimension, graph=graph, feature_size=fs, coordinate_system=cs, max_dim=max_dim, min_pos_evaluations=pos_eval)
    finally:
        mod._get_dimension = real
    if not seen:
        raise Skip('_get_dimension is not used')
    if len(seen) != len(set(seen)):
        expect(False, 'a position was evaluated twice', seen=seen)
    counts = Counter(dims[p] for p in seen)
    total = sum(counts.values())
    if res is None:
        expect(caught, 'no warning for an undetermined dimension')
        expect(all(3 * c < 2 * total for c in counts.values()), 'undetermined although two thirds agree', counts=counts)
        expect(total == len(graph), 'undetermined before all positions were evaluated', counts=counts, positions=len(graph))
    else:
        expect(3 * counts[res] >= 2 * total, 'assigned although less than two thirds agree', dimension=res, counts=counts)
        expect(pos_eval is None or total >= min(pos_eval, len(graph)), 'too few positions evaluated', counts=counts)


# ------------------------------------------------------------------- C26
def freeze_view(graph):
    return sorted((n, ) for n in graph.nodes), sorted((tuple(sorted(e[:2])), sorted(e[2].items())) for e in graph.edges(data=True))


def check_line(line, graph, fs, size, periodic, method):
    nodes = set(tuple(n) for n in line.nodes)
    cluster = set(graph.nodes)
    eps = 1e-9 * (fs + float(np.max(size)))
    expect(nodes <= cluster, 'the line contains positions which are not in the cluster', extra=nodes - cluster, method=method)
    for p, q in line.edges:
        expect(ref_dist(p, q, size, periodic) <= fs + eps and p != q, 'an edge of the line is longer than the feature size', edge=(p, q), method=method)
        expect(graph.has_edge(p, q), 'an edge of the line is not one of the cluster', edge=(p, q), method=method)
    arr = np.array(sorted(nodes))
    for p in cluster - nodes:
        expect(len(arr) and np.min(ref_dist(p, arr, size, periodic)) <= fs + eps, 'a position is not within the feature size of the line', position=p, line=sorted(nodes), method=method)
    if method != 'ballistic':
        expect(len(line) and nx.is_connected(line), 'the line is not connected', components=[sorted(c) for c in nx.connected_components(line)], method=method)


@case('C26', weight=3)
def line_of_cluster(rng, ctx):
    func = need('nodefinder.identify._evaluate._line', '_evaluate_line')
    kind = int(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))
    n = int(rng.choice([2, 3, 5, 10, 20, 40]))
    dim, lower, upper, periodic, fs, cs, graph = one_cluster(rng, ctx, n=n, kind=kind)
    method = METHODS[int(rng.integers(3))]
    ctx.input(method=method)
    if len(graph) < 2 and method == 'ballistic':
        ctx.trivial()
        return
    before = freeze_view(graph)
    shape = call(func, graph=graph, coordinate_system=cs, feature_size=fs, method=method)
    expect(freeze_view(graph) == before, 'the cluster was modified', method=method)
    check_line(shape.graph, graph, fs, upper - lower, periodic, method)


@case('C26', weight=1)
def long_lines(rng, ctx):
    """Long thin clusters through run_from_positions."""
    dim = int(rng.integers(2, 4))
    length = float(rng.choice([1., 3.]))
    fs = .1 * float(rng.choice([1., 2.]))
    periodic = bool(rng.integers(2))
    cs = CoordinateSystem(limits=[(0, length)] * dim, periodic=periodic)
    t = np.sort(rng.random(int(length / fs * rng.integers(3, 7))))
    phase = rng.random(dim)
    kind = int(rng.integers(3))
    pts = np.tile(phase, (len(t), 1)) * length
    if kind == 0:
        pts[:, 0] = t * length
        pts[:, 1] = (pts[:, 1] + fs * np.sin(2 * np.pi * t)) % length
    elif kind == 1:
        pts[:, 0] = length * (.5 + .3 * np.cos(2 * np.pi * t))
        pts[:, 1] = length * (.5 + .3 * np.sin(2 * np.pi * t))
    else:
        half = rng.integers(2, size=len(t))
        pts[:, 0] = np.where(half, t, .5) * length
        pts[:, 1] = np.where(half, .5, t) * length
    pts = [inside(p, np.zeros(dim), np.full(dim, length)) for p in pts]
    method = METHODS[int(rng.integers(3))]
    ctx.input(kind=kind, length=length, periodic=periodic, feature_size=fs, method=method, positions=pts)
    res = identify.run_from_positions(pts, coordinate_system=cs, feature_size=fs, evaluate_line_method=method)
    create_clusters = need('nodefinder.identify._cluster', 'create_clusters')
    graphs = {frozenset(g.nodes): g for g in call(create_clusters, pts, feature_size=fs, coordinate_system=cs)}
    hit = False
    for r in res:
        if isinstance(r.shape, NodalLine):
            graph = graphs.get(frozenset(tuple(p) for p in r.positions))
            expect(graph is not None, 'the positions of a line are not a cluster', positions=r.positions)
            check_line(r.shape.graph, graph, fs, np.full(dim, length), periodic, method)
            hit = True
    if not hit:
        ctx.trivial()


# ------------------------------------------------------------------- C27
def gen_graph(rng):
    kind = int(rng.integers(8))
    n = int(rng.integers(1, 9)) if rng.integers(10) else int(rng.integers(50, 300))
    if kind == 0:
        g = nx.gnp_random_graph(n, float(rng.random()), seed=int(rng.integers(1000)))
    elif kind == 1:
        g = nx.cycle_graph(max(n, 3))
    elif kind == 2:
        g = nx.path_graph(n)
    elif kind == 3:
        g = nx.disjoint_union(nx.cycle_graph(3), nx.path_graph(n))
    elif kind == 4:
        g = nx.star_graph(n)
    elif kind == 5:
        g = nx.disjoint_union(nx.path_graph(2), nx.path_graph(2))
    elif kind == 6:  # a loop with a tail, a loop with an isolated point
        g = nx.lollipop_graph(3, n) if rng.integers(2) else nx.disjoint_union(nx.cycle_graph(4), nx.empty_graph(1))
    else:
        g = nx.empty_graph(n)
    pts = [tuple(float(z) for z in p) for p in rng.random((len(g), 3))]
    res = nx.Graph()
    res.add_nodes_from(pts[i] for i in g.nodes)
    res.add_edges_from((pts[a], pts[b]) for a, b in g.edges if a != b)
    return res


def check_shape(shape, graph):
    degrees = Counter(d for _, d in graph.degree)
    degrees.pop(2, None)
    count = shape.degree_count
    expect(dict(count) == dict(degrees), 'the degree count is wrong', degree_count=dict(count), expected=dict(degrees))
    if not degrees:
        name = 'CLOSED LOOP'
    elif dict(degrees) == {1: 2}:
        name = 'OPEN LINE'
    else:
        name = 'UNKNOWN'
    expect(shape.shape_name == name, 'the shape name is wrong', shape_name=shape.shape_name, expected=name, degree_count=dict(degrees))


@case('C27', weight=3)
def degree_count(rng, ctx):
    func = need('nodefinder.identify._evaluate._line._run', '_create_degree_count')
    graph = gen_graph(rng)
    ctx.input(degrees=sorted(d for _, d in graph.degree), edges=len(graph.edges))
    before = freeze_view(graph)
    shape = NodalLine(graph=graph, degree_count=call(func, graph))
    check_shape(shape, graph)
    expect(freeze_view(graph) == before, 'the graph was modified')


@case('C27', weight=1)
def degree_count_of_lines(rng, ctx):
    func = need('nodefinder.identify._evaluate._line', '_evaluate_line')
    dim, lower, upper, periodic, fs, cs, graph = one_cluster(rng, ctx, n=int(rng.integers(2, 30)))
    if len(graph) < 2:
        ctx.trivial()
        return
    method = METHODS[int(rng.integers(3))]
    ctx.input(method=method)
    shape = call(func, graph=graph, coordinate_system=cs, feature_size=fs, method=method)
    check_shape(shape, shape.graph)


# ------------------------------------------------------------------- C28
@case('C28', weight=3)
def identify_search_result(rng, ctx):
    dim, limits, lower, upper, periodic, fs, cs = gen_setup(rng)
    fs = max(fs, float((upper - lower).max()) * (.1 if dim == 3 else .02))
    cutoff = fs * .3
    thr = float(rng.choice([1e-3, .5]))
    pts = gen_cloud(rng, lower, upper, fs, int(rng.choice([0, 1, 4, 15])))
    rejected = gen_cloud(rng, lower, upper, fs, int(rng.choice([0, 0, 2, 5])))
    results = [make_result(p, thr * float(rng.random()) * .99) for p in pts] + [make_result(p, thr * float(rng.uniform(1.01, 3))) for p in rejected]
    order = rng.permutation(len(results))
    con = SearchResultContainer(coordinate_system=cs, gap_threshold=thr, dist_cutoff=cutoff, minimization_results=[results[i] for i in order])
    as_state = bool(rng.integers(2))
    obj = con
    if as_state:
        SimplexQueue = need('nodefinder.search._queue', 'SimplexQueue')
        PositionQueue = need('nodefinder.search._queue', 'PositionQueue')
        obj = ControllerState(result=con, simplex_queue=call(SimplexQueue), position_queue=call(PositionQueue))
    given = [None, fs, fs * .7, 0][int(rng.choice(4, p=[.3, .3, .3, .1]))]
    method = [None] + METHODS
    method = method[int(rng.integers(4))]
    kw = {}
    if given is not None:
        kw['feature_size'] = given
    if method is not None:
        kw['evaluate_line_method'] = method
    nodes = [tuple(float(x) for x in r.pos) for r in con.nodes]
    before = nodes, [tuple(r.pos) for r in con.rejected_results]
    ctx.input(limits=limits, periodic=periodic, dist_cutoff=cutoff, nodes=nodes, rejected=rejected, state=as_state, **kw)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        res = identify.run(obj, **kw)
    factor = search_factor()
    expected = given if given is not None else (None if factor is None else cutoff * factor)
    check_identification(res, nodes, lower, upper, periodic, expected, cs, caught)
    after = [tuple(float(x) for x in r.pos) for r in con.nodes], [tuple(r.pos) for r in con.rejected_results]
    expect(before == after, 'the search result was modified')


_FACTOR = []


def search_factor():
    """Ratio of the feature size of a search and the cutoff in its result."""
    if not _FACTOR:
        import nodefinder.search as search
        res = search.run(lambda x: 1., limits=[(0, 1)], initial_mesh_size=1, feature_size=.25, nelder_mead_kwargs=dict(maxiter=1))
        _FACTOR.append(.25 / float(res.dist_cutoff))
    return _FACTOR[0]


def check_identification(res, nodes, lower, upper, periodic, fs, cs, caught=()):
    size = upper - lower
    if fs is None:
        fs = res.feature_size
    expect(abs(res.feature_size - fs) <= 1e-9 * fs, 'wrong feature size', feature_size=res.feature_size, expected=fs)
    expect(res.coordinate_system == cs or np.array_equal(res.coordinate_system.limits, cs.limits), 'wrong coordinate system')
    groups = [[tuple(float(x) for x in p) for p in r.positions] for r in res]
    for g in groups:
        expect(len(g) == len(set(g)), 'a position appears twice in an object', positions=g)
    eps = 1e-9 * (fs + float(np.max(size)))
    check_groups([set(g) for g in groups], nodes, size, periodic, fs, eps)
    for r, g in zip(res, groups):
        if r.dimension == 0:
            expect(isinstance(r.shape, NodalPoint), 'a zero-dimensional object is not a point', shape=r.shape)
            avg = np.asarray(cs.average([np.array(p) for p in g]))
            pos = np.asarray(r.shape.position)
            expect(ref_dist(pos, avg, size, periodic) <= 1e-7 * float(np.max(size)), 'the point is not at the average of the positions', point=pos, average=avg, positions=g)
            if len(g) == 1:
                expect(ref_dist(pos, g[0], size, periodic) <= 1e-7 * float(np.max(size)), 'the point is not at its only position', point=pos, position=g)
        elif r.dimension == 1:
            expect(isinstance(r.shape, NodalLine) or r.shape is None, 'a one-dimensional object is not a line', shape=r.shape)
            if r.shape is None:
                expect(caught, 'a missing line without a warning')
            else:
                expect(set(tuple(n) for n in r.shape.graph.nodes) <= set(g), 'the line is not part of the cluster')
        else:
            expect(r.shape is None, 'an object of another dimension has a shape', dimension=r.dimension, shape=r.shape)


@case('C28', weight=2)
def identify_positions(rng, ctx):
    dim, limits, lower, upper, periodic, fs, cs = gen_setup(rng)
    pts = gen_cloud(rng, lower, upper, fs, int(rng.choice([0, 1, 2, 5, 20])))
    if rng.integers(12) == 0:
        fs = 0
    given = [np.array(p) for p in pts] if rng.integers(2) else list(pts)
    kw = {}
    method = ([None, 'unknown method'] + METHODS)[int(rng.integers(5))]
    if method is not None:
        kw['evaluate_line_method'] = method
    ctx.input(limits=limits, periodic=periodic, feature_size=fs, positions=pts, **kw)
    before = [tuple(float(x) for x in p) for p in given]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        res = identify.run_from_positions(given, coordinate_system=cs, feature_size=fs, **kw)
    check_identification(res, pts, lower, upper, periodic, fs, cs, caught)
    if method == 'unknown method':
        expect(not any(isinstance(r.shape, NodalLine) for r in res), 'a line was identified with an unknown method')
    expect(before == [tuple(float(x) for x in p) for p in given], 'the positions were modified')
