"""C29: the paths which are drawn for a line."""
import itertools
import types

import networkx as nx
import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.seq import SymSeq
from pyvc.shims import Arr
from . import spec
from .coord import call

MOD = 'nodefinder.identify.plot'
NX = 'networkx is executed as it is installed'
FUN = [MOD + '._get_graph_paths', MOD + '._get_next_starting_point']


def the_loader():
    return load.Loader({'networkx': nx, 'scipy.special': __import__('scipy.special').special, 'nodefinder._common_plot': shims.module('nodefinder._common_plot', _setup_plot=None)})


class Point:
    """The coordinates of a node, of which only the distances to others are known."""
    _vc_symbolic = True

    def __init__(self, node):
        self.node = node

    def __sub__(self, other):
        if not isinstance(other, Point):
            raise core.Unsupported('difference of other coordinates')
        return Difference(self.node, other.node)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('coordinates: ' + name)


class Difference:
    _vc_symbolic = True

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __neg__(self):
        return Difference(self.b, self.a)

    def _vc_array(self, dtype=None):
        return self

    def _vc_norm(self, axis=None):
        if axis not in (None, -1, 0):
            raise core.Unsupported('norm')
        return self.a.length(self.b)


class Node:
    """A node of a graph (not equal to any other)."""

    def __init__(self, table, name):
        self.table, self.name = table, name

    def _vc_array(self, dtype=None):
        return Point(self)

    def length(self, other):
        return self.table(self, other)

    def __iter__(self):
        raise core.Unsupported('coordinates of a node')

    def __repr__(self):
        return 'node {}'.format(self.name)


def lengths(vc):
    table = {}

    def get(a, b):
        key = frozenset([a, b])
        if len(key) == 1:
            return S(z3.RealVal(0))
        if key not in table:
            table[key] = vc.real('length')
            vc.fact(table[key].e > 0)
        return table[key]

    return get


def steps(paths):
    return [(a, b) for p in paths for a, b in zip(p, p[1:])]


def small(num, orders):

    def check(vc):
        vc.coupled = '_get_graph_paths'
        loader = the_loader()
        get = lengths(vc)
        nodes = [Node(get, k) for k in range(num)]
        graph = nx.Graph()
        graph.add_nodes_from(nodes)
        pairs = [(a, b) for a, b in itertools.combinations(nodes, 2)]
        if orders and vc.choose('order'):
            pairs.reverse()
        for a, b in pairs:
            if vc.choose('edge'):
                graph.add_edge(a, b, label=(a, b))
        size = vc.real('size')
        vc.assume(size >= 0)
        before = (list(graph.nodes), [(a, b, dict(d)) for a, b, d in graph.edges(data=True)])
        paths = call(vc, loader.get(MOD, '_get_graph_paths'), graph, feature_size=size)
        drawn = steps(paths)
        vc.prove('only edges are drawn', z3.BoolVal(all(graph.has_edge(a, b) for a, b in drawn)))
        conds = []
        for a, b in graph.edges:
            times = sum({a, b} == {x, y} for x, y in drawn)
            conds.append(z3.If(get(a, b).e <= 2 * size.e, z3.BoolVal(times == 1), z3.BoolVal(times == 0)))
        vc.prove('every edge which is not too long is drawn exactly once, and no other', z3.And(conds))
        vc.prove('the graph is not modified', z3.BoolVal(before == (list(graph.nodes), [(a, b, dict(d)) for a, b, d in graph.edges(data=True)])))

    return check


for _num, _tier in ((2, None), (3, None), (4, None)):
    spec('C29', name='small_graph_{}'.format(_num), functions=FUN, seconds=90, max_paths=10000, trusted=[NX], tier=_tier, scope='every graph with {} nodes, edges of any length'.format(_num))(small(_num, _num < 4))


class Where(tuple):
    """Coordinates as a node of a graph (different nodes are different objects)."""
    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


def drawing(num, dim):

    def check(vc):
        loader = the_loader()
        nodes = [Where(vc.real('x') for _ in range(dim)) for _ in range(num)]
        for a, b in itertools.combinations(nodes, 2):
            vc.assume(z3.Or([lift(x) != lift(y) for x, y in zip(a, b)]))
        graph = nx.Graph()
        graph.add_nodes_from(nodes)
        for a, b in itertools.combinations(nodes, 2):
            if vc.choose('edge'):
                graph.add_edge(a, b)
        size = None if vc.choose('no_size') else vc.real('size')
        if size is not None:
            vc.assume(size >= 0)
        before = (list(graph.nodes), list(graph.edges))
        plotted, scattered = [], []

        class Axis:
            def plot(self, *coords, **kw):
                plotted.append([list(c) for c in coords])

            def scatter(self, *coords, **kw):
                scattered.append([list(c) for c in coords])

            def __getattr__(self, name):
                if name.startswith('_'):
                    raise AttributeError(name)
                raise core.Unsupported('axis.' + name)

        shape = call(vc, loader.get('nodefinder.identify.result._shapes', 'NodalLine'), graph=graph, degree_count={})
        call(vc, loader.get(MOD, 'nodal_line'), shape, axis=Axis(), color='r', feature_size=size)
        drawn = []

        def which(point):
            for n in nodes:
                if all(z3.eq(z3.simplify(lift(x)), z3.simplify(lift(y))) for x, y in zip(point, n)):
                    return n
            return None

        ok = all(len(c) == dim for c in plotted)
        for coords in plotted if ok else ():
            pts = [which(p) for p in zip(*coords)]
            ok = ok and None not in pts
            drawn.extend(zip(pts, pts[1:]))
        vc.prove('only edges are drawn', z3.BoolVal(ok and all(graph.has_edge(a, b) for a, b in drawn)))
        if not ok:
            return
        conds = []
        for a, b in graph.edges:
            times = sum({id(a), id(b)} == {id(x), id(y)} for x, y in drawn)
            if size is None:
                conds.append(z3.BoolVal(times == 1))
                continue
            sq = z3.Sum([(lift(x) - lift(y)) * (lift(x) - lift(y)) for x, y in zip(a, b)])
            conds.append(z3.If(sq <= 4 * size.e * size.e, z3.BoolVal(times == 1), z3.BoolVal(times == 0)))
        vc.prove('every edge which is not too long is drawn exactly once, and no other', z3.And(conds))
        vc.prove('the graph is not modified', z3.BoolVal(before == (list(graph.nodes), list(graph.edges))))

    return check


for _num, _dim in ((2, 1), (3, 1), (2, 2), (2, 3)):
    spec('C29', name='drawing_{}_{}d'.format(_num, _dim), functions=FUN + [MOD + '.nodal_line'], seconds=100, trusted=[NX], scope='{} nodes, dimension {}'.format(_num, _dim))(drawing(_num, _dim))


# ------------------------------------------------------- graphs of any size
class INode:
    """A node of a graph of any size: its number."""

    def __init__(self, g, e):
        self.g, self.e = g, e

    def _vc_array(self, dtype=None):
        return Point(self)

    def length(self, other):
        return S(self.g.len(self.e, other.e))

    def same(self, other):
        return self.e == other.e

    def __iter__(self):
        raise core.Unsupported('coordinates of a node')

    def __eq__(self, other):
        return isinstance(other, INode) and core.cur().branch(self.e == other.e)

    def __hash__(self):
        return 7


class AnyGraph:
    """
    A graph of any size (the edges are a relation): ``edges`` of the copy change
    as edges are removed.
    """

    def __init__(self, vc):
        self.vc = vc
        self.edge = z3.Function('edge', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.dist = z3.Function('length', z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.copies = []

    def len(self, a, b):
        self.vc.fact(self.dist(a, b) == self.dist(b, a), self.dist(a, b) >= 0)
        return self.dist(a, b)

    def has(self, a, b):
        return z3.Or(self.edge(a, b), self.edge(b, a))

    def copy(self):
        res = Working(self)
        self.copies.append(res)
        return res

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('graph.' + name)


class Working:
    """A copy of the graph from which edges are removed."""

    def __init__(self, base):
        self.base, self.vc = base, base.vc
        self.rel = base.has
        self.version = 0
        # ghost: how many edges are left
        self.left = self.vc.fresh_expr(z3.IntSort(), 'left')
        self.ends = []

    def havoc(self):
        self.version += 1
        self.left = self.vc.fresh_expr(z3.IntSort(), 'left')
        r = z3.Function('left!{}'.format(self.version), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        base = self.base
        # some of the edges of the graph
        self.rel = lambda a, b: z3.And(z3.Or(r(a, b), r(b, a)), base.has(a, b))

    @property
    def edges(self):
        return Edges(self)

    def number_of_edges(self):
        raise core.Unsupported('number of edges')

    def neighbors(self, node):
        if not isinstance(node, INode):
            raise core.Unsupported('neighbours of something else')
        vc, rel = self.vc, self.rel
        if vc.choose('neighbour'):
            e = vc.fresh_expr(z3.IntSort(), 'neighbour')
            vc.fact(rel(node.e, e))
            return iter([INode(self.base, e)])
        # no edge of this node is left
        vc.fact(*[z3.Not(rel(node.e, x)) for x in self.ends])
        return iter([])

    def remove_edge(self, a, b):
        old = self.rel
        self.vc.prove('an edge which is removed is there', old(a.e, b.e))
        self.left = self.left - 1
        self.rel = lambda x, y: z3.And(old(x, y), z3.Not(z3.Or(z3.And(x == a.e, y == b.e), z3.And(x == b.e, y == a.e))))

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('graph.' + name)


class Edges:
    def __init__(self, g):
        self.rel, self.vc = g.rel, g.vc

    def __bool__(self):
        if self.vc.choose('edges left'):
            return True
        # there is no edge: also not the one in question
        a, b = self.vc.scope['focus']
        self.vc.fact(z3.Not(self.rel(a, b)))
        return False

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('edges: ' + name)

    def __len__(self):
        raise core.Unsupported('number of edges')

    def __iter__(self):
        raise core.Unsupported('iteration over the edges')


class Earlier:
    """Any paths (or the beginning of one), in which the edge in question is drawn this often."""

    def __init__(self, vc):
        self.count = vc.fresh_expr(z3.IntSort(), 'times')
        vc.fact(self.count >= 0)


def times(vc, paths):
    a, b = vc.scope['focus']
    total = z3.IntVal(0)
    for p in paths:
        if isinstance(p, Earlier):
            total = total + p.count
            continue
        prev = None
        for x in p:
            if isinstance(x, Earlier):
                total = total + x.count
                prev = None
                continue
            if prev is not None:
                total = total + z3.If(z3.Or(z3.And(prev.e == a, x.e == b), z3.And(prev.e == b, x.e == a)), 1, 0)
            prev = x
    return total


class Outer:
    def __init__(self, vc, work):
        self.vc = vc
        self.paths = None
        self.loc = None

    def invariant(self, name, extra=()):
        vc = self.vc
        a, b = vc.scope['focus']
        work, graph = vc.scope['work'], vc.scope['graph']
        n = times(vc, list(self.paths) + list(extra))
        short = graph.len(a, b) <= 2 * vc.scope['size'].e
        return z3.And(
            z3.Implies(z3.Or(z3.Not(graph.has(a, b)), z3.Not(short)), n == 0),
            z3.Implies(z3.And(graph.has(a, b), short), n == z3.If(work.rel(a, b), 0, 1)),
        )

    def enter(self, vc, loc, names, seq):
        works = [v for v in loc.values() if isinstance(v, Working)]
        lists = [v for v in loc.values() if isinstance(v, list)]
        if len(works) != 1 or len(lists) != 1 or any(n in loc for n in names):
            raise core.Unsupported('another loop')
        vc.scope['work'] = works[0]
        self.paths = lists[0]
        vc.prove('before the first path: every edge is drawn or left', self.invariant('start'))
        works[0].havoc()
        self.paths[:] = [Earlier(vc)]
        vc.fact(self.invariant('head'))
        self.left = works[0].left
        return {}

    def preserved(self, vc, loc):
        vc.prove('after a path: every edge is either left or drawn once, if it is not too long', self.invariant('end'))
        vc.prove('the loop ends: fewer edges are left after a path', vc.scope['work'].left < self.left)

    def elements(self, vc, seq):
        raise core.Unsupported('loop over a sequence')


class Inner(Outer):
    def __init__(self, vc, outer):
        self.vc, self.outer = vc, outer

    def current(self, loc):
        nodes = [(n, loc[n]) for n in self.names if isinstance(loc.get(n), INode)]
        lists = [(n, loc[n]) for n in self.names if isinstance(loc.get(n), list)]
        return nodes, lists

    def enter(self, vc, loc, names, seq):
        self.names = names
        if self.outer.paths is None:
            raise core.Unsupported('another loop')
        self.paths = self.outer.paths
        nodes, lists = self.current(loc)
        if len(nodes) != 1 or len(lists) != 1 or lists[0][1] is self.paths:
            raise core.Unsupported('another loop')
        self.node, self.path = nodes[0][0], lists[0][0]
        self.check('at the start of a path', nodes[0][1], lists[0][1])
        node = INode(vc.scope['graph'], vc.fresh_expr(z3.IntSort(), 'node'))
        path = [Earlier(vc), node]
        self.paths[:] = [Earlier(vc)]
        work = vc.scope['work']
        work.havoc()
        vc.fact(self.invariant('head', [path]))
        # either edges were removed, or there is one to go on
        work.ends.append(vc.fresh_expr(z3.IntSort(), 'end'))
        vc.fact(z3.Or(work.left < self.outer.left, z3.And(work.left == self.outer.left, work.rel(node.e, work.ends[-1]))))
        self.left = work.left
        return {self.node: node, self.path: path}

    def check(self, when, node, path):
        vc = self.vc
        ok = bool(path) and isinstance(path[-1], INode)
        vc.prove(when + ': the path ends at the current node', z3.BoolVal(ok) if not ok else path[-1].e == node.e)
        vc.prove(when + ': every edge is either left or drawn once, if it is not too long', self.invariant('end', [path]))
        work = vc.scope['work']
        vc.prove(when + ': edges were removed, or there is one to go on', z3.Or([work.left < self.outer.left] + [z3.And(work.left == self.outer.left, work.rel(node.e, x)) for x in work.ends]))

    def preserved(self, vc, loc):
        self.check('after a step', loc[self.node], loc[self.path])
        vc.prove('the loop ends: fewer edges are left after a step', vc.scope['work'].left < self.left)


@spec('C29', functions=FUN[:1], seconds=40, scope='graphs of any size, edges of any length', trusted=['contract of _get_next_starting_point: some node with an edge (verified on its own)', 'the number of edges of a finite graph goes down by one when an edge is removed, and is not negative'])
def any_graph(vc):
    vc.coupled = 'the two loops along the edges'
    loader = the_loader()
    graph = AnyGraph(vc)
    size = vc.real('size')
    vc.assume(size >= 0)
    a, b = vc.fresh_expr(z3.IntSort(), 'a'), vc.fresh_expr(z3.IntSort(), 'b')
    vc.fact(a != b)
    vc.scope.update(focus=(a, b), graph=graph, size=size)
    mod = loader.load(MOD)
    if not hasattr(mod, '_get_next_starting_point'):
        raise core.Unsupported('no _get_next_starting_point')
    started = []

    def start(g):
        if not isinstance(g, Working):
            raise core.Unsupported('start in another graph')
        node = INode(graph, vc.fresh_expr(z3.IntSort(), 'start'))
        started.append(node)
        # it has an edge
        g.ends.append(vc.fresh_expr(z3.IntSort(), 'end'))
        vc.fact(g.rel(node.e, g.ends[-1]))
        return node

    mod._get_next_starting_point = start
    outer = Outer(vc, None)
    inner = Inner(vc, outer)
    vc.loops[lambda lid, loc, names, seq: seq is None and outer.paths is None] = outer
    vc.loops[lambda lid, loc, names, seq: seq is None and outer.paths is not None] = inner
    paths = call(vc, loader.get(MOD, '_get_graph_paths'), graph, feature_size=size)
    if paths is not outer.paths:
        raise core.Unsupported('another list of paths')
    short = graph.len(a, b) <= 2 * size.e
    n = times(vc, paths)
    vc.prove('every edge which is not too long is drawn exactly once', z3.Implies(z3.And(graph.has(a, b), short), n == 1))
    vc.prove('no other segment is drawn', z3.Implies(z3.Not(z3.And(graph.has(a, b), short)), n == 0))


@spec('C29', functions=FUN[1:], seconds=40, scope='graphs of any size; which of the nodes with an edge is taken does not matter')
def start_node_any(vc):
    vc.coupled = '_get_next_starting_point'
    loader = the_loader()
    deg = z3.Function('degree_of', z3.IntSort(), z3.IntSort())

    def entry(k):
        vc.fact(deg(k) >= 0)
        return (S(k), S(deg(k)))

    seq = SymSeq.new(entry, name='degrees')
    w = seq.some('with_edge')
    vc.fact(seq.member(w), deg(w) > 0)
    seq.instantiate(w)
    node = call(vc, loader.get(MOD, '_get_next_starting_point'), Degrees(seq))
    k = lift(node)
    vc.prove('a path starts at a node with an edge', z3.And(seq.member(k), deg(k) > 0))


class Degrees:
    def __init__(self, degree):
        self.degree = degree

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('graph.' + name)


@spec('C29', functions=FUN[1:], seconds=40, scope='up to 4 nodes with any degrees')
def start_node(vc):
    vc.coupled = '_get_next_starting_point'
    loader = the_loader()
    num = 1 + vc.pick(4)
    degrees = [vc.int('degree', low=0) for _ in range(num)]
    vc.assume(z3.Or([d.e > 0 for d in degrees]))
    graph = Degrees([(k, d) for k, d in enumerate(degrees)])
    node = call(vc, loader.get(MOD, '_get_next_starting_point'), graph)
    vc.prove('a path starts at a node with an edge', degrees[node].e > 0 if node in range(num) else z3.BoolVal(False))
