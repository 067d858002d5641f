"""C27: degree counts and shape names; C28: the identification as a whole."""
import collections
import itertools
import types

import networkx as nx
import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.seq import SymSeq, Spread, Independent
from pyvc.shims import Arr
from . import spec
from .coord import call
from .dims import Warnings, replace

RUN = 'nodefinder.identify._run'
EVAL = 'nodefinder.identify._evaluate._run'
POINT = 'nodefinder.identify._evaluate._point'
LINE = 'nodefinder.identify._evaluate._line._run'
SHAPES = 'nodefinder.identify.result._shapes'
CONTS = 'nodefinder.identify.result._containers'
NX = 'networkx is executed as it is installed'
special = __import__('scipy.special').special


def the_loader(**stubs):
    return load.Loader(dict({'networkx': nx, 'scipy.special': special}, **stubs))


# ----------------------------------------------------------------------- C27
FUN27 = [LINE + '._evaluate_line', LINE + '._create_degree_count', SHAPES + '.NodalLine.shape_name']


def small_lines(num):

    def check(vc):
        vc.coupled = 'the table of methods'
        loader = the_loader()
        graph = nx.Graph()
        graph.add_nodes_from(range(num))
        for a, b in itertools.combinations(range(num), 2):
            if vc.choose('edge'):
                graph.add_edge(a, b)
        if num < 3 and vc.choose('loop'):
            graph.add_edge(0, 0)
        table = loader.load(LINE)._METHOD_FUNC_LOOKUP if hasattr(loader.load(LINE), '_METHOD_FUNC_LOOKUP') else None
        if not isinstance(table, dict):
            raise core.Unsupported('no table of methods')
        table['given'] = lambda *, graph, coordinate_system, feature_size: graph
        before = sorted(graph.edges), sorted(graph.nodes)
        line = call(vc, loader.get(LINE, '_evaluate_line'), graph=graph, coordinate_system=object(), feature_size=1., method='given')
        degrees = [d for _, d in graph.degree]
        want = {d: degrees.count(d) for d in degrees if d != 2}
        vc.prove('the number of nodes for every degree other than two, and nothing else', z3.BoolVal(dict(line.degree_count) == want))
        name = 'CLOSED LOOP' if not want else 'OPEN LINE' if want == {1: 2} else 'UNKNOWN'
        vc.prove('the name describes the graph', z3.BoolVal(line.shape_name == name))
        vc.prove('the graph of the line is the one which was found', z3.BoolVal(line.graph is graph and before == (sorted(graph.edges), sorted(graph.nodes))))

    return check


for _num in (1, 2, 3, 4):
    spec('C27', name='small_lines_{}'.format(_num), functions=FUN27, seconds=30, trusted=[NX], scope='every graph with {} nodes'.format(_num))(small_lines(_num))


class SymCounter:
    """
    collections.Counter of a sequence of any length: the multiplicity of a
    value v is the number of k with selected(k) and value(k) = v.
    """

    def __init__(self, seq=None, keep=None):
        if not isinstance(seq, SymSeq):
            raise core.Unsupported('counter of something else')
        self.seq = seq
        self.keep = keep or []

    def drop(self, key):
        self.keep.append(lambda v: v != lift(key))

    def pop(self, key, *default):
        if not default:
            raise core.Unsupported('pop without default')
        self.drop(key)
        return None

    def __delitem__(self, key):
        # Counter.__delitem__ accepts missing keys
        self.drop(key)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('Counter.{}'.format(name))

    def counts(self, k, v):
        """is element k counted for v?"""
        return z3.And([self.seq.member(k), lift(self.seq.at(k)) == v] + [f(v) for f in self.keep])


class AnyDegrees:
    """A graph of which only the degrees are used, with any number of nodes."""

    def __init__(self, vc):
        self.f = z3.Function('degree', z3.IntSort(), z3.IntSort())
        self.degree = SymSeq.new(lambda k: (('node', k), S(self.f(k))), 'nodes')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('graph.{}'.format(name))


@spec('C27', functions=FUN27[:2], seconds=30, trusted=['contract of collections.Counter: the multiplicity of each value'], scope='graphs of any size')
def any_degrees(vc):
    vc.coupled = 'the way of counting'
    real = collections
    mod = shims.module('collections', **{k: getattr(real, k) for k in ('namedtuple', 'defaultdict', 'OrderedDict', 'ChainMap', 'deque')})
    mod.Counter = SymCounter
    mod.abc = real.abc
    loader = the_loader(collections=mod)
    graph = AnyDegrees(vc)
    count = call(vc, loader.get(LINE, '_create_degree_count'), graph)
    if not isinstance(count, SymCounter):
        raise core.Unsupported('another way of counting')
    v = vc.fresh_expr(z3.IntSort(), 'v')
    k = graph.degree.index('k')
    vc.prove('every node of a degree other than two is counted for this degree only, and no others',
             z3.And(count.counts(k, v) == z3.And(graph.f(k) == v, v != 2), z3.BoolVal(count.seq.n is graph.degree.n)))


@spec('C27', functions=FUN27[2:], seconds=40, scope='any numbers for up to 3 different degrees')
def shape_names(vc):
    loader = the_loader()
    subsets = [c for n in range(4) for c in itertools.combinations([0, 1, 3, 4], n)]
    degrees = list(subsets[vc.pick(len(subsets))])
    num = len(degrees)
    # (hash values of numbers are only known for these)
    vc.hash_ints = range(0, 5) if num < 2 else (1, 2)
    if num > 1 and vc.choose('reversed'):
        degrees.reverse()
    counts = {d: vc.int('count', low=1) for d in degrees}
    given = dict(counts)
    cls = loader.get(SHAPES, 'NodalLine')
    line = call(vc, cls, graph=object(), degree_count=collections.Counter(given) if vc.choose('counter') else given)
    name = line.shape_name
    vc.prove('a closed loop exactly if there is no node of another degree than two', z3.BoolVal((name == 'CLOSED LOOP') == (num == 0)))
    is_open = counts[1].e == 2 if degrees == [1] else z3.BoolVal(False)
    vc.prove('an open line exactly if there are two nodes of degree one and no others', is_open == z3.BoolVal(name == 'OPEN LINE'))
    vc.prove('unknown otherwise', z3.BoolVal(name in ('CLOSED LOOP', 'OPEN LINE', 'UNKNOWN')))


# ----------------------------------------------------------------------- C28
FUN28 = [RUN + '.run', RUN + '.run_from_positions']


class Only:
    """An object of which only some attributes may be used, and none may be changed."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __setattr__(self, name, val):
        core.cur().fail('the input is not modified', detail=name)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('attribute {} of the input'.format(name))


def any_result(vc):
    """A search result with any number of nodes."""
    f = z3.Function('pos', z3.IntSort(), z3.RealSort())
    val = z3.Function('val', z3.IntSort(), z3.RealSort())
    nodes = SymSeq.new(lambda k: Only(pos=Arr([S(f(k)), S(f(k) + 1)]), value=S(val(k))), 'nodes')
    return nodes, f


class Shape:
    """The shape of a cluster."""

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('attribute {} of a shape'.format(name))


class Clusters:
    """The functions which the identification calls, for any number of clusters."""

    def __init__(self, vc, loader):
        self.calls, self.vc = [], vc
        self.nodes = z3.Function('node', z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.seq = SymSeq.new(self.graph, 'clusters')
        self.loop = None
        self.made = {}
        self.dims, self.shapes = {}, {}
        replace(loader, RUN, 'create_clusters', self.create)
        replace(loader, RUN, 'calculate_dimension', self.dimension)
        replace(loader, RUN, 'evaluate_cluster', self.evaluate)

    def graph(self, k):
        key = k.get_id()
        if key not in self.made:
            num = z3.Function('size', z3.IntSort(), z3.IntSort())(k)
            self.vc.fact(num >= 1)
            nodes = SymSeq(num, lambda j: (S(self.nodes(k, j)), S(self.nodes(k, j) + 1)), name='positions')
            self.made[key] = (Only(nodes=nodes, which=k), k)
        return self.made[key][0]

    def create(self, positions, *, feature_size, coordinate_system):
        self.calls.append((positions, feature_size, coordinate_system))
        return self.seq

    def right(self, graph, cs, size):
        pos, fs, c = self.calls[-1]
        vc = self.vc
        vc.prove('the same feature size and coordinate system are used everywhere', z3.And(to_real(lift(size)) == to_real(lift(fs)), z3.BoolVal(cs is c)))
        if not isinstance(graph, Only):
            raise core.Unsupported('another cluster')
        return graph.which.get_id()

    def dimension(self, *, graph, feature_size, coordinate_system):
        k = self.right(graph, coordinate_system, feature_size)
        self.vc.prove('the dimension is calculated once', z3.BoolVal(k not in self.dims))
        self.dims[k] = (None, 0, 1, 2, 3)[self.vc.pick(5, 'dimension')]
        return self.dims[k]

    def evaluate(self, graph, dim, coordinate_system, feature_size, evaluate_line_method='shortest_path'):
        k = self.right(graph, coordinate_system, feature_size)
        self.vc.prove('the shape is evaluated for the dimension of the cluster', z3.BoolVal(k in self.dims and dim == self.dims[k]))
        self.shapes[k] = Shape() if dim == 0 or dim == 1 and self.vc.choose('line') else None
        self.method = evaluate_line_method
        return self.shapes[k]


def identified(vc, res, clusters, cs, size, k):
    vc.prove('the coordinate system and the feature size are kept', z3.And(z3.BoolVal(res.coordinate_system is cs), to_real(lift(res.feature_size)) == to_real(lift(size))))
    items = res.results
    items = list(items) if isinstance(items, (list, tuple)) else [Spread(items)] if isinstance(items, SymSeq) else None
    ok = items is not None and len(items) == 1 and isinstance(items[0], Spread) and items[0].seq.cond is None
    vc.prove('there is one object for each cluster', z3.BoolVal(ok) if not ok else items[0].seq.n == clusters.seq.n)
    if not ok:
        return
    obj = items[0].seq.at(k)
    g = clusters.graph(k)
    pos = obj.positions
    if isinstance(pos, (list, tuple)) and len(pos) == 1 and isinstance(pos[0], Spread):
        pos = pos[0].seq
    good = isinstance(pos, SymSeq) and pos.cond is None
    vc.prove('all positions of the cluster are kept', z3.BoolVal(good) if not good else pos.n == g.nodes.n)
    if good:
        j = g.nodes.index('j')
        vc.prove('the positions are the ones of the cluster', z3.And([lift(a) == lift(b) for a, b in zip(pos.at(j), g.nodes.at(j))] + [z3.BoolVal(len(pos.at(j)) == 2)]))
    vc.prove('dimension and shape are the ones of this cluster', z3.BoolVal(found(clusters, k.get_id(), obj)))


def found(clusters, k, obj):
    if k not in clusters.dims:
        return False
    dim = clusters.dims[k]
    # there is no shape unless the dimension is zero or one (see evaluation)
    known = k in clusters.shapes or dim not in (0, 1)
    return obj.dimension == dim and (obj.dimension is None) == (dim is None) and known and obj.shape is clusters.shapes.get(k)


def with_loop(vc, clusters, k):
    vc.loops[lambda lid, loc, names, seq: seq is clusters.seq] = Independent([k])


@spec('C28', functions=FUN28, seconds=40, scope='any number of nodes, clusters and positions', trusted=['contracts of create_clusters (C24), calculate_dimension (C25) and evaluate_cluster, verified on their own'])
def identification(vc):
    vc.coupled = 'the functions which are called'
    loader = the_loader()
    clusters = Clusters(vc, loader)
    nodes, f = any_result(vc)
    cs = Only()
    cut = vc.real('cutoff')
    vc.assume(cut > 0)
    result = Only(nodes=nodes, coordinate_system=cs, dist_cutoff=cut)
    args = {}
    state = vc.choose('state')
    if state:
        cls = loader.get('nodefinder.search.result', 'ControllerState')
        obj = object.__new__(cls)
        obj.__dict__['result'] = result
        given = obj
    else:
        given = result
    factor = loader.load('nodefinder.search._controller')
    size = None
    if vc.choose('feature_size'):
        size = vc.real('size')
        vc.assume(size >= 0)
        args['feature_size'] = size
    method = ('ballistic', 'shortest_path', 'dominating_set', None)[vc.pick(4)]
    if method:
        args['evaluate_line_method'] = method
    k = clusters.seq.index('k')
    with_loop(vc, clusters, k)
    res = call(vc, loader.get(RUN, 'run'), given, **args)
    vc.prove('the clusters are created once', z3.BoolVal(len(clusters.calls) == 1))
    if len(clusters.calls) != 1:
        return
    positions = clusters.calls[0][0]
    if isinstance(positions, (list, tuple)) and len(positions) == 1 and isinstance(positions[0], Spread):
        positions = positions[0].seq
    ok = isinstance(positions, SymSeq) and positions.cond is None
    vc.prove('the positions of all nodes are used', z3.BoolVal(ok) if not ok else positions.n == nodes.n)
    if ok:
        i = nodes.index('i')
        vc.prove('the positions are the ones of the nodes', z3.And([lift(a) == lift(b) for a, b in zip(positions.at(i), nodes.at(i).pos)] + [z3.BoolVal(len(positions.at(i)) == 2)]))
    if size is None:
        if not hasattr(factor, '_DIST_CUTOFF_FACTOR'):
            raise core.Unsupported('no _DIST_CUTOFF_FACTOR')
        size = cut * factor._DIST_CUTOFF_FACTOR
    identified(vc, res, clusters, cs, size, k)
    if method:
        vc.prove('the method is passed on', z3.BoolVal(clusters.method == method))


@spec('C28', functions=FUN28[1:], seconds=40, scope='any number of positions, clusters and positions', trusted=['contracts of create_clusters (C24), calculate_dimension (C25) and evaluate_cluster, verified on their own'])
def identification_of_positions(vc):
    vc.coupled = 'the functions which are called'
    loader = the_loader()
    clusters = Clusters(vc, loader)
    f = z3.Function('pos', z3.IntSort(), z3.RealSort())
    given = SymSeq.new(lambda k: (S(f(k)), S(f(k) + 1)), 'positions')
    cs = Only()
    size = vc.real('size')
    vc.assume(size >= 0)
    k = clusters.seq.index('k')
    with_loop(vc, clusters, k)
    res = call(vc, loader.get(RUN, 'run_from_positions'), given, coordinate_system=cs, feature_size=size)
    vc.prove('the clusters are created once', z3.BoolVal(len(clusters.calls) == 1))
    if len(clusters.calls) != 1:
        return
    positions = clusters.calls[0][0]
    i = given.index('i')
    vc.prove('all the positions are used', z3.And(z3.BoolVal(isinstance(positions, SymSeq) and positions.cond is None), positions.n == given.n, *[lift(a) == lift(b) for a, b in zip(positions.at(i), given.at(i))]) if isinstance(positions, SymSeq) else z3.BoolVal(False))
    identified(vc, res, clusters, cs, size, k)


@spec('C28', functions=[RUN + '.run', 'nodefinder.search._controller.Controller.__init__'], seconds=40, scope='any feature size')
def default_feature_size(vc):
    from .control import Env, Old, Container, loader_for
    from . import state
    size = vc.real('feature_size')
    vc.assume(size > 0)
    env = Env(vc, 1)
    build = state.start(vc, env, 1, Old(), feature_size=size, save_file=None)[0]
    ctl = build()
    cont = ctl.state.result
    loader = the_loader()
    seen = []
    replace(loader, RUN, 'create_clusters', lambda positions, *, feature_size, coordinate_system: seen.append((feature_size, coordinate_system)) or [])
    cs = object()
    result = Only(nodes=[], coordinate_system=cs, dist_cutoff=cont.dist_cutoff)
    res = call(vc, loader.get(RUN, 'run'), result)
    vc.prove('the feature size defaults to the one of the search', z3.And(z3.BoolVal(len(seen) == 1 and seen[0][1] is cs), to_real(lift(seen[0][0])) == size.e, to_real(lift(res.feature_size)) == size.e))
    vc.prove('nothing is identified without nodes', z3.BoolVal(len(res) == 0))


class AnyCluster(Only):
    pass


@spec('C28', functions=[EVAL + '.evaluate_cluster', POINT + '._evaluate_point'], seconds=40, scope='clusters of any size', trusted=['contract of CoordinateSystem.average (C06), contract of _evaluate_line (C26, C27)'])
def evaluation(vc):
    vc.coupled = '_evaluate_line'
    warn = Warnings()
    loader = the_loader(warnings=warn)
    f = z3.Function('pos', z3.IntSort(), z3.RealSort())
    nodes = SymSeq.new(lambda k: (S(f(k)), S(f(k) + 1)), 'positions')
    graph = AnyCluster(nodes=nodes)
    averaged = []
    mean = Arr([vc.real('mean'), vc.real('mean')])

    def average(positions):
        averaged.append(positions)
        return mean

    cs = Only(average=average)
    size = vc.real('size')
    line = object()
    calls = []
    error = [None, IndexError, ValueError, RuntimeError][vc.pick(4)]

    def evaluate_line(graph, coordinate_system, feature_size, **kw):
        calls.append((graph, coordinate_system, feature_size, kw))
        if error is not None:
            raise error('no line')
        return line

    replace(loader, EVAL, '_evaluate_line', evaluate_line)
    dim = [None, 0, 1, 2, 3, numpy.int64(0), numpy.int64(1)][vc.pick(7)]
    args = {}
    method = None
    if vc.choose('method'):
        args['evaluate_line_method'] = method = 'dominating_set'
    try:
        res = call(vc, loader.get(EVAL, 'evaluate_cluster'), graph=graph, dim=dim, coordinate_system=cs, feature_size=size, **args)
    except RuntimeError:
        vc.prove('only errors of the line are passed on', z3.BoolVal(dim == 1 and error is RuntimeError))
        return
    if dim is None or dim > 1:
        vc.prove('there is no shape unless the dimension is zero or one', z3.BoolVal(res is None))
    elif dim == 0:
        ok = len(averaged) == 1 and type(res).__name__ == 'NodalPoint' and isinstance(averaged[0], (SymSeq, list))
        pos = averaged[0] if ok else None
        if isinstance(pos, list):
            pos = pos[0].seq if len(pos) == 1 and isinstance(pos[0], Spread) else None
        ok = isinstance(pos, SymSeq) and pos.cond is None
        vc.prove('a point is at the average of its positions', z3.BoolVal(ok) if not ok else z3.And([pos.n == nodes.n] + [lift(a) == lift(b) for a, b in zip(res.position, mean)]))
        if ok:
            i = nodes.index('i')
            vc.prove('all positions of the cluster are averaged', z3.And([lift(a) == lift(b) for a, b in zip(pos.at(i), nodes.at(i))]))
    else:
        good = len(calls) == 1 and calls[0][0] is graph and calls[0][1] is cs and (method is None or method in calls[0][3].values())
        vc.prove('the line of the cluster is evaluated with the method', z3.BoolVal(good) if not good else to_real(lift(calls[0][2])) == size.e)
        if error is None:
            vc.prove('the result is the line', z3.BoolVal(res is line))
        else:
            vc.prove('there is no shape, and a warning, if the line can not be identified', z3.BoolVal(res is None and len(warn.given) == 1))
