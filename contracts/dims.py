"""C25: the dimension of a cluster."""
import collections
import itertools
import random as real_random
import types
import warnings as real_warnings

import networkx as nx
import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.seq import SymSeq
from pyvc.shims import Arr
from . import spec
from .coord import call

MOD = 'nodefinder.identify._dimension'
CS = 'nodefinder.coordinate_system'
NX = 'networkx is executed as it is installed'
RANDOM = 'contract of the random module: shuffle reorders a list, sample returns different elements of a sequence'


class Random(types.ModuleType):
    """The random module: any choice."""

    def __init__(self, vc):
        super().__init__('random')
        self.vc = vc
        self.shuffled = 0

    def shuffle(self, x):
        if isinstance(x, SymSeq):
            self.shuffled += 1  # in any order: nothing is known about it
            return
        if not isinstance(x, list):
            raise core.Unsupported('shuffle of a {}'.format(type(x).__name__))
        if len(x) > 1 and self.vc.choose('shuffled'):
            x.append(x.pop(0))

    def sample(self, population, k, **kw):
        if kw or isinstance(population, (set, frozenset, dict)) or not hasattr(population, '__len__'):
            raise TypeError('Population must be a sequence.')
        left = list(population)
        if not 0 <= k <= len(left):
            raise ValueError('Sample larger than population or is negative')
        res = []
        for _ in range(k):
            res.append(left.pop(self.vc.pick(len(left), 'sample')))
        return res

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('random.{}'.format(name))


class First(Random):
    """The first choice is always taken."""

    def shuffle(self, x):
        pass

    def sample(self, population, k, **kw):
        if isinstance(population, (set, frozenset, dict)) or not hasattr(population, '__len__'):
            raise TypeError('Population must be a sequence.')
        if not 0 <= k <= len(population):
            raise ValueError('Sample larger than population or is negative')
        return list(population)[:k]


class Again(Random):
    """
    Either a choice which was made before or another one (which one makes no
    difference if nothing is known about the elements).
    """

    def __init__(self, vc):
        super().__init__(vc)
        self.before = []
        self.repeated = 0

    def sample(self, population, k, **kw):
        if kw or isinstance(population, (set, frozenset, dict)) or not hasattr(population, '__len__'):
            raise TypeError('Population must be a sequence.')
        population = list(population)
        if not 0 <= k <= len(population):
            raise ValueError('Sample larger than population or is negative')
        for c in itertools.combinations(population, k):
            if c in self.before:
                if self.vc.choose('again'):
                    self.repeated += 1
                    if self.repeated > 2:
                        # the choice would have to be the same again and again
                        raise core.PathEnd()
                    return list(c)
            else:
                self.before.append(c)
                res = list(c)
                if self.vc.choose('reversed'):
                    res.reverse()
                return res
        if self.before and population:
            self.repeated += 1
            if self.repeated > 2:
                raise core.PathEnd()
            return list(population[:k])
        return []


class Warnings(types.ModuleType):
    def __init__(self):
        super().__init__('warnings')
        self.given = []

    def warn(self, message, *args, **kw):
        self.given.append(message)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('warnings.{}'.format(name))


def replace(loader, module, name, value):
    mod = loader.load(module)
    if not hasattr(mod, name):
        raise core.Unsupported('no {}.{}'.format(module, name))
    setattr(mod, name, value)


def is_whole(x):
    return isinstance(x, (int, numpy.integer)) and not isinstance(x, bool)


def majority(count, total):
    return 3 * count >= 2 * total


LIMIT = 10**12


@spec('C25', functions=[MOD + '._check_count'], seconds=40, scope='up to 4 different values, each found any number of times (at most 10^12 in total)')
def majority_rule(vc):
    vc.coupled = '_check_count'
    loader = load.Loader()
    num = 1 + vc.pick(4)
    counts = {k: vc.int('count', low=1) for k in range(num)}
    total = z3.Sum([c.e for c in counts.values()])
    vc.fact(total <= LIMIT)
    order = list(counts.items())
    if vc.choose('reversed'):
        order.reverse()
    counter = collections.Counter(dict(order))
    before = dict(counter)
    finished, dim = call(vc, loader.get(MOD, '_check_count'), counter)
    ok = vc.branch(z3.Or([majority(c.e, total) for c in counts.values()]))
    vc.prove('a value is accepted exactly if at least two thirds are equal to it', z3.BoolVal(bool(finished) == ok))
    if finished and is_whole(dim) and dim in counts:
        vc.prove('the accepted value is the one of the majority', majority(counts[dim].e, total))
    elif finished:
        vc.fail('the accepted value is one of the values')
    vc.prove('the counts are not changed', z3.BoolVal(list(before) == list(counter)) if list(before) != list(counter) else z3.And([before[k].e == lift(counter[k]) for k in before]))


class Nodes:
    """A graph of which only the nodes are used."""

    def __init__(self, nodes):
        self.nodes = nodes

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('graph.{}'.format(name))

    def __iter__(self):
        return iter(self.nodes)


@spec('C25', functions=[MOD + '.calculate_dimension', MOD + '._check_count'], seconds=80, max_paths=20000, trusted=['contract of _get_dimension: an integer (verified on its own)', RANDOM],
      scope='up to 6 positions, with any dimensions found at them')
def few_positions(vc):
    vc.coupled = '_get_dimension'
    rand, warn = Random(vc), Warnings()
    loader = load.Loader({'random': rand, 'warnings': warn, 'scipy.special': __import__('scipy.special').special})
    num = 1 + vc.pick(6)
    nodes = [('position', k) for k in range(num)]
    graph = Nodes(list(nodes))
    found = {}
    at_least = vc.pick(4)
    settings = [{}, dict(min_pos_evaluations=None), dict(min_pos_evaluations=2 * vc.pick(2)), dict(min_pos_evaluations=3, max_dim=2)][at_least]
    minimum = settings.get('min_pos_evaluations', 5)
    cs = object()

    def dimension(pos, *, coordinate_system, graph, feature_size, max_dim, min_neighbour_evaluations):
        vc.prove('the cluster and the settings are passed on', z3.BoolVal(graph is cluster and coordinate_system is cs and feature_size is size and max_dim == settings.get('max_dim', 3)))
        vc.prove('every position is evaluated at most once', z3.BoolVal(pos in nodes and pos not in found))
        found[pos] = vc.pick(3 if num <= 3 else 2, 'dimension')
        return found[pos]

    cluster, size = graph, vc.real('size')
    replace(loader, MOD, '_get_dimension', dimension)
    res = call(vc, loader.get(MOD, 'calculate_dimension'), graph=graph, feature_size=size, coordinate_system=cs, **settings)
    total = len(found)
    best = max(list(found.values()).count(d) for d in set(found.values()))
    if res is None:
        vc.prove('it is only undetermined if less than two thirds agree', z3.BoolVal(3 * best < 2 * total))
        vc.prove('it is only undetermined after all positions are evaluated', z3.BoolVal(total == num))
        vc.prove('a warning is given if it is undetermined', z3.BoolVal(len(warn.given) == 1))
    else:
        vc.prove('the dimension is an integer found at the positions', z3.BoolVal(is_whole(res) and res in found.values()))
        vc.prove('at least two thirds of the evaluated positions agree on it', z3.BoolVal(3 * list(found.values()).count(res) >= 2 * total))
        vc.prove('enough positions are evaluated', z3.BoolVal(total >= (num if minimum is None else min(minimum, num))))
    vc.prove('the positions are not modified', z3.BoolVal(list(graph.nodes) == nodes))


class Counting:
    """
    The loop over the positions: afterwards the counter holds, for every
    dimension, the number of positions evaluated so far at which it was found.
    """
    sequential = False

    def __init__(self, ghost):
        self.ghost = ghost
        self.done = False

    def enter(self, vc, loc, names, seq):
        counters = [v for v in loc.values() if isinstance(v, collections.Counter)]
        if self.done or len(counters) != 1 or not isinstance(seq, SymSeq) or seq.cond is not None or any(n in loc for n in names):
            raise core.Unsupported('another loop')
        self.done = True
        self.seq, self.counter = seq, counters[0]
        vc.prove('nothing is counted before the first position', z3.BoolVal(not self.counter))
        # after any number of iterations
        self.inside = vc.choose('inside')
        i = vc.fresh_expr(z3.IntSort(), 'i')
        vc.fact(i >= 0)
        if self.inside:
            vc.fact(i < seq.n)
        else:
            vc.fact(i == seq.n)
        self.i = i
        vc.fact(z3.Sum(self.ghost) == i, i <= LIMIT, *[g >= 0 for g in self.ghost])
        for d in range(4):
            if vc.branch(self.ghost[d] > 0):
                self.counter[d] = S(self.ghost[d])
        return {}

    def elements(self, vc, seq):
        if self.inside:
            seq.instantiate(self.i)
            yield seq.at(self.i)

    def preserved(self, vc, loc):
        now = vc.scope['after']
        for d in range(4):
            vc.prove('the number of positions at which each dimension was found is counted', lift(self.counter.get(d, 0)) == now[d])
        vc.prove('nothing else is counted', z3.BoolVal(set(self.counter) <= set(range(4))))


@spec('C25', functions=[MOD + '.calculate_dimension', MOD + '._check_count'], seconds=80, trusted=['contract of _get_dimension: an integer from 0 to 3 (verified on its own)', RANDOM],
      scope='any number of positions (at most 10^12), dimensions up to 3')
def any_positions(vc):
    vc.coupled = 'the loop over the positions'
    rand, warn = Random(vc), Warnings()
    loader = load.Loader({'random': rand, 'warnings': warn, 'scipy.special': __import__('scipy.special').special})
    graph = Nodes(SymSeq.new(lambda k: ('position', k), 'positions'))
    vc.fact(graph.nodes.n >= 1, graph.nodes.n <= LIMIT)
    ghost = [vc.fresh_expr(z3.IntSort(), 'found') for _ in range(4)]
    vc.scope['after'] = list(ghost)
    vc.scope['evaluated'] = []
    minimum = None if vc.choose('all') else vc.int('minimum', low=0)
    contract = Counting(ghost)
    vc.loops[lambda lid, loc, names, seq: isinstance(seq, SymSeq)] = contract

    def dimension(pos, **kw):
        vc.prove('the position of this iteration is evaluated, once', z3.BoolVal(not vc.scope['evaluated'] and pos[0] == 'position' and z3.eq(z3.simplify(pos[1]), z3.simplify(contract.i))))
        vc.scope['evaluated'].append(pos)
        d = vc.pick(4, 'dimension')
        vc.scope['after'][d] = ghost[d] + 1
        return d

    replace(loader, MOD, '_get_dimension', dimension)
    res = call(vc, loader.get(MOD, 'calculate_dimension'), graph=graph, feature_size=vc.real('size'), coordinate_system=object(), min_pos_evaluations=minimum)
    if not contract.done or vc.scope['evaluated']:
        raise core.Unsupported('the dimension is decided inside of an iteration')
    total = z3.Sum(ghost)
    if res is None:
        vc.prove('it is only undetermined if less than two thirds agree', z3.Not(z3.Or([majority(g, total) for g in ghost])))
        vc.prove('it is only undetermined after all positions are evaluated', total == graph.nodes.n)
        vc.prove('a warning is given if it is undetermined', z3.BoolVal(len(warn.given) == 1))
    elif is_whole(res) and 0 <= res < 4:
        vc.prove('at least two thirds of the evaluated positions agree on it', z3.And(majority(ghost[res], total), ghost[res] > 0))
        vc.prove('enough positions are evaluated', total >= (graph.nodes.n if minimum is None else z3.If(minimum.e <= graph.nodes.n, minimum.e, graph.nodes.n)))
    else:
        vc.fail('the dimension is an integer found at the positions')


@spec('C25', functions=[MOD + '._get_dimension'], seconds=40, scope='space dimension and upper limit up to 6', trusted=['contract of _has_dimension: false for more dimensions than the space has (verified on its own)'])
def position_dimension(vc):
    vc.coupled = '_has_dimension'
    loader = load.Loader({'random': Random(vc), 'scipy.special': __import__('scipy.special').special})
    dim, max_dim = 1 + vc.pick(6), vc.pick(7)
    pos = tuple(vc.real('p') for _ in range(dim))
    has = {}

    def check(pos, *, dim, **kw):
        if len(pos) < dim:
            return 0
        has[dim] = vc.choose('has')
        return has[dim]

    replace(loader, MOD, '_has_dimension', check)
    res = call(vc, loader.get(MOD, '_get_dimension'), pos, graph=object(), coordinate_system=object(), feature_size=vc.real('size'), max_dim=max_dim, min_neighbour_evaluations=10)
    vc.prove('the dimension is an integer from zero to the smaller of the space dimension and the limit', z3.BoolVal(is_whole(res) and 0 <= res <= min(dim, max_dim)))
    if is_whole(res):
        vc.prove('it is the number of dimensions which the position has', z3.BoolVal(all(has.get(d, False) for d in range(1, res + 1)) and not has.get(res + 1, False)))


class Star:
    """A graph of which only the neighbours of one position are used."""

    def __init__(self, pos, neighbours):
        self.pos, self.nbrs = pos, neighbours

    def neighbors(self, pos):
        if pos is not self.pos:
            raise core.Unsupported('neighbours of another position')
        return iter(self.nbrs)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('graph.{}'.format(name))


def has_dimension(dim, most, minimum):

    def check(vc):
        vc.coupled = '_get_volume'
        rand = Again(vc)
        loader = load.Loader({'random': rand, 'scipy.special': __import__('scipy.special').special})
        m = vc.pick(most + 1)
        space = max(1, dim - 1 + vc.pick(2))
        pos = tuple(0.5 for _ in range(space))
        nbrs = [tuple(0.5 + (k + 1) * 0.0625 * ((k + j) % 3 - 0.75) for j in range(space)) for k in range(m)]
        graph, size = Star(pos, list(nbrs)), vc.real('size')
        vc.assume(size > 0)
        cs = object()
        given = {}

        def volume(pos, neighbour_tuple, coordinate_system):
            vc.prove('different neighbours are used', z3.BoolVal(len(neighbour_tuple) == dim and len(set(neighbour_tuple)) == dim and set(neighbour_tuple) <= set(nbrs) and coordinate_system is cs))
            key = frozenset(neighbour_tuple)
            vc.prove('no choice of neighbours is used twice', z3.BoolVal(key not in given))
            if len(given) >= 12:
                raise core.PathEnd()
            v = vc.real('volume')
            vc.fact(v.e >= 0)
            given[key] = v
            return v

        if space < dim:
            # with the real volumes
            vc.coupled = '_has_dimension'
            cs = straight_box(vc, loader, space)
            size = shims.NP.float64(2.**-vc.pick(12))
        else:
            replace(loader, MOD, '_get_volume', volume)
        res = call(vc, loader.get(MOD, '_has_dimension'), pos, graph=graph, coordinate_system=cs, dim=dim, min_neighbour_evaluations=minimum, feature_size=size)
        combos = len(list(itertools.combinations(nbrs, dim)))
        res = bool(res)
        if space < dim:
            vc.prove('there are never more dimensions than the space has', z3.BoolVal(not res))
            return
        if not combos:
            vc.prove('there are no dimensions without enough neighbours', z3.BoolVal(not res))
            return
        limit = {1: 0.5, 2: 8 / (9 * numpy.pi), 3: 27 * numpy.pi / 512}[dim]
        bound = lift((size**dim) * limit / 2)
        vals = [to_real(v.e) for v in given.values()]
        if not vals:
            vc.fail('neighbours are used if there are enough')
            return
        avg = z3.Sum(vals) / len(vals)
        vc.prove('there is a dimension exactly if the mean volume is above half of the expected one', (avg > bound) == z3.BoolVal(res))
        vc.prove('enough choices of neighbours are used', z3.BoolVal(len(vals) >= min(combos, minimum if minimum is not None else combos)))

    return check


for _dim, _most, _min, _tier in ((1, 3, 10, None), (1, 4, 2, 'thorough'), (2, 3, 10, None), (2, 4, 3, 'thorough'), (3, 4, 10, None), (1, 3, None, None), (1, 3, 0, None)):
    spec('C25', name='has_dimension_{}_{}_{}'.format(_dim, _most, _min), functions=[MOD + '._has_dimension'], seconds=60 if not _tier else 300, max_paths=6000 if not _tier else 50000, tier=_tier,
         trusted=[RANDOM], scope='dimension {}, up to {} neighbours with any volumes, at least {} evaluated'.format(_dim, _most, _min))(has_dimension(_dim, _most, _min))


class Evaluating:
    """
    The loop over the choices of neighbours: the results are the volumes for
    all choices so far.
    """

    def __init__(self, vol):
        self.vol = vol
        self.done = False

    def enter(self, vc, loc, names, seq):
        lists = [v for n, v in loc.items() if isinstance(v, list) and not v]
        if self.done or len(lists) != 1 or not isinstance(seq, enumerate) or any(n in loc for n in names):
            raise core.Unsupported('another loop')
        self.done = True
        self.results = lists[0]
        self.inside = vc.choose('inside')
        self.i = i = vc.fresh_expr(z3.IntSort(), 'i')
        vc.fact(i >= 0)
        self.seq = SymSeq(i, lambda k: S(self.vol(k)), name='volumes')
        self.seq.for_all(lambda k: self.vol(k) >= 0)
        if vc.scope['zero']:
            self.seq.for_all(lambda k: self.vol(k) == 0)
        from pyvc.seq import Spread
        self.results.append(Spread(self.seq))
        return {}

    def elements(self, vc, seq):
        if self.inside:
            yield (S(self.i), ('choice', self.i))

    def preserved(self, vc, loc):
        added = self.results[1:]
        vc.prove('the volume for each choice of neighbours is added', z3.BoolVal(len(added) == 1 and isinstance(added[0], S)) if len(added) != 1 else lift(added[0]) == self.vol(self.i))


@spec('C25', functions=[MOD + '._has_dimension'], seconds=60, scope='any number of neighbours with any volumes, dimensions 1 to 3')
def any_volumes(vc):
    vc.coupled = 'the loop over the choices of neighbours'
    loader = load.Loader({'random': Random(vc), 'scipy.special': __import__('scipy.special').special})
    dim = 1 + vc.pick(3)
    vc.scope['zero'] = vc.choose('zero')
    pos = tuple(0.5 for _ in range(dim))
    graph = Star(pos, [tuple(float(k + 1 + j) for j in range(dim)) for k in range(4)])
    size = vc.real('size')
    vc.assume(size > 0)
    vol = z3.Function('vol', z3.IntSort(), z3.RealSort())
    contract = Evaluating(vol)
    vc.loops[lambda lid, loc, names, seq: isinstance(seq, enumerate)] = contract

    def volume(pos, neighbour_tuple, coordinate_system):
        if neighbour_tuple[0] != 'choice':
            raise core.Unsupported('volume of something else')
        v = vol(neighbour_tuple[1])
        vc.fact(v >= 0)
        return S(v)

    replace(loader, MOD, '_get_volume', volume)
    minimum = None if vc.choose('none') else vc.int('minimum', low=0)
    res = call(vc, loader.get(MOD, '_has_dimension'), pos, graph=graph, coordinate_system=object(), dim=dim, min_neighbour_evaluations=minimum, feature_size=size)
    if not contract.done or len(contract.results) != 1:
        raise core.Unsupported('the dimension is decided inside of an iteration')
    truth = bool(res)
    if truth:
        vc.prove('there is no dimension without a choice of neighbours', contract.i > 0)
        vc.prove('there is no dimension if all volumes are zero', z3.BoolVal(not vc.scope['zero']))
    if vc.branch(contract.i > 0):
        from pyvc.seq import Mixed
        mean = Mixed(list(contract.results)).statistics()[0]
        limit = {1: 0.5, 2: 8 / (9 * numpy.pi), 3: 27 * numpy.pi / 512}[dim]
        vc.prove('there is a dimension exactly if the mean volume is above half of the expected one', (mean.e > lift((size**dim) * limit / 2)) == z3.BoolVal(truth))


def straight_box(vc, loader, dim):
    """A box which is not periodic."""
    return call(vc, loader.get(CS, 'CoordinateSystem'), limits=[(0., 1. + i) for i in range(dim)], periodic=False)


def volumes(rank, dim):
    """Positions in a plane with the given number of dimensions."""

    def check(vc):
        vc.coupled = '_get_volume'
        vc.auto_lemmas = False
        loader = load.Loader({'random': Random(vc), 'scipy.special': __import__('scipy.special').special})
        cs = straight_box(vc, loader, dim)
        pos = [vc.real('o') for _ in range(dim)]
        directions = [[vc.real('v') for _ in range(dim)] for _ in range(rank)]
        nbrs = []
        for _ in range(rank + 1):
            ts = [vc.real('t') for _ in range(rank)]
            nbrs.append(tuple(o + sum((t * d[i] for t, d in zip(ts, directions)), S(z3.RealVal(0))) for i, o in enumerate(pos)))
        vol = call(vc, loader.get(MOD, '_get_volume'), pos=tuple(pos), neighbour_tuple=tuple(nbrs), coordinate_system=cs)
        if not isinstance(vol, S):
            vc.prove('the volume is zero', z3.BoolVal(vol == 0))
            return
        # the singular values which were computed
        dets = [v for k, v in vc.memo.items() if isinstance(k, tuple) and k[0] == 'svd']
        if len(dets) != 1:
            raise core.Unsupported('another way to compute the volume')
        rows = dets[0][1]
        vc.trusted.add('sympy: expansion of a polynomial')
        vc.prove('the Gram determinant of dependent vectors is zero', z3.BoolVal(len(rows) == rank + 1 and core.ring_identity([], dets[0][2] == 0)))
        prod = z3.RealVal(1)
        for v in dets[0][0]:
            prod = prod * v
        # with that: the square of the product of the singular values is zero
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(prod * prod == 0, lift(vol) != 0)
        vc.queries += 1
        vc.prove('the volume is zero', z3.BoolVal(s.check() == z3.unsat))

    return check


for _rank, _dim in ((1, 2), (1, 3), (2, 3)):
    spec('C25', name='volume_{}_in_{}d'.format(_rank, _dim), functions=[MOD + '._get_volume'], seconds=60, scope='{} positions, dimension {}, box of fixed size'.format('collinear' if _rank == 1 else 'coplanar', _dim))(volumes(_rank, _dim))


def single(dim):

    def check(vc):
        rand, warn = Random(vc), Warnings()
        loader = load.Loader({'random': rand, 'warnings': warn, 'networkx': nx, 'scipy.special': __import__('scipy.special').special})
        cs = call(vc, loader.get(CS, 'CoordinateSystem'), limits=[(0., 1. + i) for i in range(dim)], periodic=vc.choose('periodic'))
        graph = nx.Graph()
        graph.add_node(tuple(vc.real('p') for _ in range(dim)))
        size = vc.real('size')
        vc.assume(size > 0)
        settings = [{}, dict(min_pos_evaluations=None), dict(min_neighbour_evaluations=None), dict(max_dim=vc.pick(4)), dict(min_pos_evaluations=1, min_neighbour_evaluations=1)][vc.pick(5)]
        res = call(vc, loader.get(MOD, 'calculate_dimension'), graph=graph, feature_size=size, coordinate_system=cs, **settings)
        vc.prove('a single position has dimension zero', z3.BoolVal(is_whole(res) and res == 0))

    return check


for _dim in (1, 2, 3):
    spec('C25', name='single_{}d'.format(_dim), functions=[MOD + '.calculate_dimension', MOD + '._get_dimension', MOD + '._has_dimension', MOD + '._check_count'], seconds=30, trusted=[NX, RANDOM],
         scope='dimension {}'.format(_dim))(single(_dim))


def small_cluster(num, dim, line):
    """The estimate as a whole."""

    def check(vc):
        rand, warn = First(vc), Warnings()
        loader = load.Loader({'random': rand, 'warnings': warn, 'networkx': nx, 'scipy.special': __import__('scipy.special').special})
        cs = call(vc, loader.get(CS, 'CoordinateSystem'), limits=[(0., 1. + i) for i in range(dim)], periodic=False)
        ts = [vc.real('t') for _ in range(num)]
        for a, b in zip(ts, ts[1:]):
            vc.assume(a < b)
        if line:
            nodes = [tuple(t * (1 + i) + .25 for i in range(dim)) for t in ts]
        else:
            nodes = [tuple([t] + [vc.real('p') for _ in range(dim - 1)]) for t in ts]
        graph = nx.Graph()
        graph.add_nodes_from(nodes)
        for a, b in itertools.combinations(nodes, 2):
            if num < 3 or b == nodes[-1] or vc.choose('edge'):
                graph.add_edge(a, b)
        size = vc.real('size')
        vc.assume(size > 0)
        max_dim = 3 if line else vc.pick(4)
        res = call(vc, loader.get(MOD, 'calculate_dimension'), graph=graph, feature_size=size, coordinate_system=cs, max_dim=max_dim)
        if res is None:
            vc.prove('a warning is given if the dimension is undetermined', z3.BoolVal(len(warn.given) == 1))
            return
        vc.prove('the dimension is an integer between zero and the smaller of the space dimension and the limit', z3.BoolVal(is_whole(res) and 0 <= res <= min(dim, max_dim)))
        if line:
            vc.prove('collinear positions have at most one dimension', z3.BoolVal(is_whole(res) and res <= 1))

    return check


for _num, _dim, _line in ((2, 1, False), (2, 2, False), (2, 3, False), (3, 2, True)):
    spec('C25', name='cluster_{}_{}d{}'.format(_num, _dim, '_line' if _line else ''), functions=[MOD + '.calculate_dimension', MOD + '._get_dimension', MOD + '._has_dimension', MOD + '._get_volume', MOD + '._check_count'],
         seconds=70, trusted=[NX, RANDOM], scope='{} {}positions, dimension {}'.format(_num, 'collinear ' if _line else '', _dim))(small_cluster(_num, _dim, _line))
