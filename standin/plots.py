"""C29: paths drawn for a line."""
from collections import Counter

import numpy as np
import networkx as nx

from .common import case, expect, need, call
from .ident import gen_graph, freeze_view, one_cluster, METHODS

from nodefinder.identify import plot
from nodefinder.identify.result import NodalLine, IdentificationResult, IdentificationResultContainer
from nodefinder.coordinate_system import CoordinateSystem


class Axis:
    def __init__(self):
        self.lines = []
        self.points = []

    def plot(self, *args, **kwargs):
        coords = [a for a in args if not isinstance(a, str)]
        self.lines.append([tuple(float(z) for z in p) for p in np.array(coords).T])

    def scatter(self, *args, **kwargs):
        self.points.append([tuple(float(z) for z in p) for p in np.array(args).T])


def gen_line_graph(rng, dim):
    """Random walks, loops, stars and combinations on a lattice or in a box."""
    kind = int(rng.integers(4))
    if kind == 0:
        base = gen_graph(rng)
        nodes = {p: tuple(p[:dim]) for p in base.nodes}
        g = nx.Graph()
        g.add_nodes_from(nodes.values())
        g.add_edges_from((nodes[a], nodes[b]) for a, b in base.edges if nodes[a] != nodes[b])
        return g
    g = nx.Graph()
    if kind == 1:  # lattice with steps of 1/8
        for _ in range(int(rng.integers(1, 4))):
            pos = rng.integers(0, 4, size=dim)
            g.add_node(tuple(pos / 8.))
            for _ in range(int(rng.integers(0, 10))):
                new = pos.copy()
                k = int(rng.integers(dim))
                new[k] += int(rng.choice([-1, 1, 2, 6]))
                if tuple(new) != tuple(pos):
                    g.add_edge(tuple(pos / 8.), tuple(new / 8.))
                pos = new
    elif kind == 2:
        n = int(rng.integers(3, 12)) if rng.integers(10) else int(rng.integers(100, 400))
        pts = [tuple(float(z) for z in p) for p in rng.random((n, dim))]
        g.add_nodes_from(pts)
        g.add_edges_from((pts[i], pts[(i + 1) % n]) for i in range(n))
        for _ in range(int(rng.integers(0, 4))):
            i, j = rng.choice(n, size=2, replace=False)
            g.add_edge(pts[i], pts[j])
    else:
        n = int(rng.integers(2, 8))
        pts = [tuple(float(z) for z in p) for p in rng.random((n, dim))]
        g.add_nodes_from(pts)
        full = nx.gnp_random_graph(n, float(rng.choice([.3, .7, 1.])), seed=int(rng.integers(1000)))
        g.add_edges_from((pts[i], pts[j]) for i, j in full.edges)
    return g


def check_paths(paths, graph, fs):
    drawn = Counter()
    for path in paths:
        for p, q in zip(path[:-1], path[1:]):
            expect(graph.has_edge(tuple(p), tuple(q)), 'a segment is drawn which is not an edge', segment=(p, q), paths=paths)
            drawn[frozenset([tuple(p), tuple(q)])] += 1
    for p, q in graph.edges:
        length = float(np.linalg.norm(np.array(p) - np.array(q)))
        count = drawn[frozenset([p, q])]
        if length < 2 * fs * (1 - 1e-9):
            expect(count == 1, 'an edge is not drawn exactly once', edge=(p, q), count=count, length=length, feature_size=fs)
        elif length > 2 * fs * (1 + 1e-9):
            expect(count == 0, 'an edge longer than twice the feature size is drawn', edge=(p, q), length=length, feature_size=fs)
        else:
            expect(count <= 1, 'an edge is drawn more than once', edge=(p, q), count=count)
            axis = np.count_nonzero(np.array(p) != np.array(q)) == 1 and all(float(8 * z).is_integer() for z in p + q)
            if axis and length == 2 * fs:
                expect(count == 1, 'an edge of twice the feature size is not drawn', edge=(p, q))


@case('C29', weight=3)
def graph_paths(rng, ctx):
    func = need('nodefinder.identify.plot', '_get_graph_paths')
    graph = gen_line_graph(rng, int(rng.integers(2, 4)))
    fs = float(rng.choice([.0625, .125, .25, .05, .5, 10., np.inf, 0.]))
    ctx.input(edges=list(graph.edges), nodes=len(graph), feature_size=fs)
    before = freeze_view(graph)
    paths = call(func, graph, feature_size=fs)
    expect(freeze_view(graph) == before, 'the graph was modified')
    check_paths([[tuple(p) for p in path] for path in paths], graph, fs)


@case('C29', weight=3)
def drawn_lines(rng, ctx):
    graph = gen_line_graph(rng, int(rng.integers(2, 4)))
    fs = float(rng.choice([.0625, .125, .25, .05, .5, 10., 0.]))
    kw = dict(feature_size=fs) if rng.integers(4) else {}
    ctx.input(edges=list(graph.edges), nodes=len(graph), **kw)
    before = freeze_view(graph)
    axis = Axis()
    plot.nodal_line(NodalLine(graph=graph, degree_count={}), axis=axis, color='C0', **kw)
    expect(freeze_view(graph) == before, 'the graph was modified')
    check_paths(axis.lines, graph, kw.get('feature_size', np.inf))
    expect(axis.lines or axis.points, 'nothing was drawn')


@case('C29', weight=1, maxn=12)
def drawn_results(rng, ctx):
    import matplotlib.pyplot as plt
    graph = gen_line_graph(rng, 2)
    fs = float(rng.choice([.0625, .125, .25]))
    cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
    res = IdentificationResultContainer(coordinate_system=cs, feature_size=fs, results=[
        IdentificationResult(positions=list(graph.nodes), dimension=1, shape=NodalLine(graph=graph, degree_count={}))])
    ctx.input(edges=list(graph.edges), feature_size=fs)
    before = freeze_view(graph)
    try:
        fig, axis = plot.result(res)
        lines = [[tuple(float(z) for z in p) for p in np.array(line.get_xydata())] for line in axis.lines]
    finally:
        plt.close('all')
    expect(freeze_view(graph) == before, 'the graph was modified')
    check_paths(lines, graph, fs)
