"""
C24: clusters; C25: dimensions; C27: degree counts and shape names; C28: the
identification as a whole.
"""
import collections
import random as real_random
import types
import warnings as real_warnings

import networkx as nx
import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.seq import SymSeq, Spread
from pyvc.shims import Arr, GV
from . import spec
from .coord import call

CLU = 'nodefinder.identify._cluster'
DIM = 'nodefinder.identify._dimension'
EVAL = 'nodefinder.identify._evaluate._run'
POINT = 'nodefinder.identify._evaluate._point'
LINE = 'nodefinder.identify._evaluate._line._run'
RUN = 'nodefinder.identify._run'
SHAPES = 'nodefinder.identify.result._shapes'
CONTS = 'nodefinder.identify.result._containers'
NX = 'networkx is executed as it is installed'


def same_value(vc, a, b):
    """equality of two positions, decided on this path"""
    return len(a) == len(b) and vc.branch(z3.And([to_real(lift(x)) == to_real(lift(y)) for x, y in zip(a, b)]))


class Metric:
    """A coordinate system of which only the distances of given positions are known."""

    def __init__(self, vc, positions, same=None):
        self.vc, self.positions = vc, positions
        num = len(positions)
        self.d = {}
        for i in range(num):
            for j in range(i):
                x = vc.real('d')
                vc.fact(x.e >= 0)
                self.d[i, j] = self.d[j, i] = x

    def index(self, row):
        e = lift(row[0])
        for i, p in enumerate(self.positions):
            if z3.eq(e, lift(p[0])):
                return i
        raise core.Unsupported('distance of another position')

    def pair(self, a, b):
        i, j = self.index(a), self.index(b)
        return self.d[i, j] if i != j else S(z3.RealVal(0))

    def distance(self, pos1, pos2):
        a, b = shims.NP.array(pos1), shims.NP.array(pos2)
        ra, rb = shims.raw(a), shims.raw(b)
        if ra.ndim == 1 and rb.ndim == 1:
            return self.pair(ra, rb)
        if ra.ndim == 1:
            return Arr([self.pair(ra, y) for y in rb]) if len(rb) else Arr([])
        if rb.ndim == 1:
            return Arr([self.pair(x, rb) for x in ra]) if len(ra) else Arr([])
        raise core.Unsupported('distances of several positions')

    def __getattr__(self, name):
        raise core.Unsupported('coordinate_system.{}'.format(name))


# ----------------------------------------------------------------------- C24
FUN24 = [CLU + '.create_clusters', CLU + '._create_graph']


def components(num, edges):
    comp = list(range(num))
    for i, j in edges:
        a, b = comp[i], comp[j]
        comp = [a if c == b else c for c in comp]
    return comp


def clusters(num, dim, distinct):

    def check(vc):
        loader = load.Loader({'networkx': nx})
        n = num if distinct else 1 + vc.pick(num, 'number')
        positions = [Arr([vc.real('p') for _ in range(dim)]) for _ in range(n)]
        before = [p.copy() for p in positions]
        reps = []
        for i, p in enumerate(positions):
            if distinct:
                for q in reps:
                    vc.assume(z3.Or([lift(x) != lift(y) for x, y in zip(p, positions[q])]))
                reps.append(i)
            elif not any(same_value(vc, p, positions[q]) for q in reps):
                reps.append(i)
        metric = Metric(vc, positions)
        size = vc.real('size')
        vc.assume(size > 0)
        # equal positions have equal distances
        group = {i: next(q for q in reps if q == i or (not distinct and same_value(vc, positions[i], positions[q]))) for i in range(n)}
        for i in range(n):
            for j in range(i):
                a, b = group[i], group[j]
                vc.fact(metric.d[i, j].e == (metric.d[a, b].e if a != b else z3.RealVal(0)))
        given = list(positions) if vc.choose('list') else [tuple(p) for p in positions]
        res = call(vc, loader.get(CLU, 'create_clusters'), given, feature_size=size, coordinate_system=metric)
        near = {(i, j) for i in reps for j in reps if i < j and vc.branch(metric.d[i, j].e <= size.e)}
        comp = components(n, near)
        found = []
        for g in res:
            idx = []
            for node in g.nodes:
                hit = [i for i in reps if same_value(vc, node, positions[i])]
                idx.append(hit[0] if hit else None)
            found.append(idx)
        every = [i for idx in found for i in idx]
        vc.prove('every position belongs to exactly one cluster', z3.BoolVal(sorted(every, key=str) == sorted(reps, key=str)))
        if None in every or len(set(every)) != len(every):
            return
        where = {i: k for k, idx in enumerate(found) for i in idx}
        vc.prove('two positions are in the same cluster exactly if a chain of short steps connects them', z3.BoolVal(
            all((where.get(i) == where.get(j)) == (comp[i] == comp[j]) for i in reps for j in reps)))
        vc.prove('no cluster is empty', z3.BoolVal(all(found)))
        got = set()
        for g, idx in zip(res, found):
            nodes = list(g.nodes)
            for a, b, attrs in g.edges(data=True):
                i, j = sorted((idx[nodes.index(a)], idx[nodes.index(b)]))
                got.add((i, j))
                vc.prove('an edge is labelled with the distance', z3.Or([lift(x) == metric.d[i, j].e for x in attrs.values() if isinstance(x, S)] or [z3.BoolVal(False)]))
        vc.prove('there is an edge exactly between the positions at most the feature size apart', z3.BoolVal(got == near))
        vc.prove('the positions are not modified', z3.And([lift(x) == lift(y) for p, q in zip(positions, before) for x, y in zip(p, q)]))

    return check


for _num, _dim, _distinct in ((3, 1, False), (3, 2, True), (4, 1, True)):
    spec('C24', name='clusters_{}_{}d'.format(_num, _dim), functions=FUN24, seconds=100, max_paths=20000, trusted=['contract of the distance: symmetric (C04)', NX],
         scope='{} {} positions, dimension {}, any distances'.format(_num, 'distinct' if _distinct else 'or fewer', _dim))(clusters(_num, _dim, _distinct))


@spec('C24', functions=FUN24 + ['nodefinder.coordinate_system.CoordinateSystem.distance'], seconds=60, trusted=[NX], scope='two positions in any box, dimension 1 and 2')
def with_box(vc):
    loader = load.Loader({'networkx': nx})
    dim = 1 + vc.pick(2)
    cs = call(vc, loader.get('nodefinder.coordinate_system', 'CoordinateSystem'), limits=[(0., 1. + i) for i in range(dim)], periodic=vc.choose('periodic'))
    a, b = (Arr([vc.real('p') for _ in range(dim)]) for _ in range(2))
    for p in (a, b):
        for x, s in zip(p, cs.size):
            vc.assume(x >= 0, x <= float(s))
    vc.assume(z3.Or([lift(x) != lift(y) for x, y in zip(a, b)]))
    size = vc.real('size')
    vc.assume(size > 0)
    res = call(vc, loader.get(CLU, 'create_clusters'), [a, b], feature_size=size, coordinate_system=cs)
    # the squared distance
    total = z3.RealVal(0)
    for x, y, s in zip(a, b, cs.size):
        delta = lift(x) - lift(y)
        delta = z3.If(delta >= 0, delta, -delta)
        if cs.periodic:
            other = lift(float(s)) - delta
            delta = z3.If(delta <= other, delta, other)
        total = total + delta * delta
    joined = len(res) == 1
    vc.prove('they are joined exactly if their distance is at most the feature size', (total <= size.e * size.e) == z3.BoolVal(joined))
    vc.prove('joined positions have an edge', z3.BoolVal([len(g.edges) for g in res] == ([1] if joined else [0, 0])))


class Focus:
    """
    Loop contract: only one arbitrary iteration is executed (all are alike),
    then the code after the loop.
    """
    sequential = True

    def __init__(self, index, entered=None):
        self.k = index
        self.entered = entered
        self.seq = None

    def enter(self, vc, loc, names, seq):
        if any(n in loc for n in names):
            raise core.Unsupported('a loop which is not independent of the order of its iterations')
        if not isinstance(seq, SymSeq):
            raise core.Unsupported('loop over something else')
        self.seq = seq
        return {}

    def elements(self, vc, seq):
        member = self.seq.member(self.k)
        self.member = member
        if vc.branch(member):
            self.seq.instantiate(self.k)
            yield self.seq.at(self.k)

    def preserved(self, vc, loc):
        pass


class UniqueSeq(SymSeq):
    """The result of set(): pairwise different elements."""

    def _vc_set(self):
        return self


class BuiltGraph:
    """nx.Graph() to which nodes and edges are added."""
    made = None

    def __init__(self, *args):
        if args or core.cur().scope.get('graph') is not None:
            raise core.Unsupported('another graph')
        core.cur().scope['graph'] = self
        self.nodes_given, self.added, self.sub = [], [], []

    def add_nodes_from(self, nodes):
        self.nodes_given.append(nodes)

    def add_edge(self, a, b, **attrs):
        self.added.append((a, b, attrs))

    def subgraph(self, nodes):
        return types.SimpleNamespace(copy=lambda: ('copy of the subgraph', self, nodes))

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('graph.{}'.format(name))


def any_clusters(dim):
    """One arbitrary pair among any number of positions."""

    def check(vc):
        vc.coupled = 'the two loops over the positions'
        cols = [z3.Function('p!{}'.format(k), z3.IntSort(), z3.RealSort()) for k in range(dim)]
        given = SymSeq.new(lambda k: Arr([S(c(k)) for c in cols]), 'positions')
        ucols = [z3.Function('u!{}'.format(k), z3.IntSort(), z3.RealSort()) for k in range(dim)]
        asked = []

        def unique(seq):
            """contract of set(): the different elements in any order"""
            asked.append(seq)
            return UniqueSeq.new(lambda k: tuple(S(c(k)) for c in ucols), 'unique')

        SymSeq._vc_set = unique
        d = z3.Function('d', z3.IntSort(), z3.IntSort(), z3.RealSort())

        def index(row):
            e = lift(row[0])
            if e.decl().name() != 'u!0' or not all(z3.eq(lift(x), c(e.arg(0))) for x, c in zip(row, ucols)):
                raise core.Unsupported('distance of another position')
            return e.arg(0)

        def distance(a, b):
            if isinstance(a, SymSeq) and isinstance(b, (tuple, Arr)):
                a, b = b, a
            if isinstance(b, SymSeq) and isinstance(a, (tuple, Arr)):
                i = index(a)

                def one(row):
                    j = index(row)
                    vc.fact(d(i, j) == d(j, i), d(i, j) >= 0)
                    return S(d(i, j))

                return b.map(one)
            raise core.Unsupported('distance')

        frozen = []
        comps = []

        def connected(graph):
            if graph is not vc.scope.get('graph'):
                raise core.Unsupported('components of another graph')
            seq = SymSeq.new(lambda k: ('component', k), 'components')
            comps.append(seq)
            return seq

        alg = shims.module('networkx.algorithms', connected_components=connected)
        mod = shims.module('networkx', Graph=BuiltGraph, algorithms=alg, connected_components=connected, freeze=lambda g: g)
        loader = load.Loader({'networkx': mod, 'networkx.algorithms': alg})
        size = vc.real('size')
        # an arbitrary pair of positions, or an arbitrary iteration
        a, b = vc.fresh_expr(z3.IntSort(), 'a'), vc.fresh_expr(z3.IntSort(), 'b')
        inner = vc.fresh_expr(z3.IntSort(), 'inner')
        pair = vc.choose('pair')
        if pair:
            vc.fact(0 <= a, a < b, inner == b - a - 1)
        outer_loop, inner_loop = Focus(a), Focus(inner)
        vc.loops[lambda lid, loc, names, seq: isinstance(seq, SymSeq) and outer_loop.seq is None] = outer_loop
        vc.loops[lambda lid, loc, names, seq: isinstance(seq, SymSeq) and outer_loop.seq is not None and inner_loop.seq is None] = inner_loop
        try:
            res = call(vc, loader.get(CLU, 'create_clusters'), given, feature_size=size, coordinate_system=types.SimpleNamespace(distance=distance))
        finally:
            del SymSeq._vc_set
        graph = vc.scope.get('graph')
        ok = graph is not None and len(graph.nodes_given) == 1 and isinstance(graph.nodes_given[0], UniqueSeq) and len(asked) == 1
        vc.prove('the nodes of the graph are the different positions', z3.BoolVal(ok))
        if not ok:
            return
        uni = graph.nodes_given[0]
        # asked[0]: the given positions as tuples
        k = given.index('k')
        vc.prove('they are taken from all the given positions', z3.And(asked[0].n == given.n, z3.BoolVal(asked[0].cond is None), *[lift(x) == c(k) for x, c in zip(asked[0].at(k), cols)]))
        edges = []
        for x, y, attrs in graph.added:
            i, j = index(x), index(y)
            edges.append((i, j))
            vc.prove('an edge connects two different positions', z3.And(i >= 0, j >= 0, i < uni.n, j < uni.n, i != j))
            vc.prove('only positions at most the feature size apart are connected', d(i, j) <= size.e)
            vc.prove('an edge is labelled with the distance', z3.Or([lift(v) == d(i, j) for v in attrs.values()] or [z3.BoolVal(False)]))
        if pair:
            vc.assume(b < uni.n)
            vc.fact(d(a, b) == d(b, a))
            there = z3.Or([z3.Or(z3.And(i == a, j == b), z3.And(i == b, j == a)) for i, j in edges] or [z3.BoolVal(False)])
            vc.prove('positions at most the feature size apart are connected', z3.Implies(d(a, b) <= size.e, there))
        vc.prove('each cluster is a copy of the part of the graph with the positions of one component', z3.BoolVal(
            len(comps) == 1 and isinstance(res, SymSeq) and res.n is comps[0].n and res.cond is None))
        if len(comps) == 1 and isinstance(res, SymSeq):
            k = comps[0].index('k')
            got = res.at(k)
            vc.prove('each cluster consists of the nodes of its component', z3.BoolVal(got[0] == 'copy of the subgraph' and got[1] is graph and got[2] is comps[0].at(k)))

    return check


for _dim in (1, 3):
    spec('C24', name='any_clusters_{}d'.format(_dim), functions=FUN24, seconds=60,
         trusted=['contract of set(): the different elements', 'contract of networkx: connected_components gives the classes of connected nodes, subgraph all edges between the nodes', 'contract of the distance: symmetric (C04)'],
         scope='any number of positions, dimension {}'.format(_dim))(any_clusters(_dim))
