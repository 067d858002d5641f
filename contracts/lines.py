"""
C26: the graph of a line, for clusters of any size.

A cluster is an unknown connected graph: nodes are unknown integers, the edges
an unknown symmetric relation. Sets and graphs in the code under verification
are predicates over them; what networkx does is given by contracts. Coverage
is decided for an arbitrary position (the focus), connectedness for the ends
of whatever is added to the line.
"""
import itertools
import types

import networkx as real_nx
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.seq import SymSeq
from . import spec
from .coord import call

LINE = 'nodefinder.identify._evaluate._line.'
INT = z3.IntSort()
NX = [
    'contract of networkx: copy, subgraph, neighbors, edges, degree as documented',
    'contract of networkx.shortest_path: a simple path along edges from source to target, NetworkXNoPath if there is none',
]
CLUSTER = ['contract of the cluster (C24): connected, edges join positions at most the feature size apart and carry their distance']


class Nd:
    """A node (a position of the cluster): its number."""

    def __init__(self, w, e):
        self.w, self.e = w, e
        w.term(e)

    def __eq__(self, other):
        return isinstance(other, Nd) and core.cur().branch(self.e == other.e)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 7

    def __iter__(self):
        raise core.Unsupported('coordinates of a node')

    def __repr__(self):
        return 'node'

    def _vc_array(self, dtype=None):
        return Where(self)


class Where:
    """Coordinates of a node, only good for the coordinate system."""
    _vc_symbolic = True

    def __init__(self, node):
        self.node = node

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('coordinates: ' + name)


class World:
    def __init__(self, vc):
        self.vc = vc
        self.terms, self.indices = [], []
        self.N = z3.Function('node', INT, z3.BoolSort())
        self.E = z3.Function('edge', INT, INT, z3.BoolSort())
        self.D = z3.Function('distance', INT, INT, z3.RealSort())
        self.fs = vc.real('feature_size')
        vc.assume(self.fs > 0)
        self.recording = None
        self.lonely = z3.Function('only_node', INT, z3.BoolSort())
        self.graphs, self.paths, self.links, self.lengths = [], [], [], []
        self.made = []
        self.v = self.fresh('v')
        vc.fact(self.N(self.v))
        self.special = [self.v]
        self.g = self.fresh('any')  # an arbitrary node, for "every element of a set"
        self.cluster = Gr(self, self.N, self.has, readonly=True, full=True)
        vc.scope['world'] = self

    def fresh(self, name):
        e = self.vc.fresh_expr(INT, name)
        self.term(e)
        return e

    def node(self, name, *facts):
        e = self.fresh(name)
        for f in facts:
            self.vc.fact(f(e))
        return Nd(self, e)

    def term(self, e):
        if not any(z3.eq(e, t) for t in self.terms):
            self.terms.append(e)

    def index(self, e):
        e = z3.simplify(e)
        if not any(z3.eq(e, t) for t in self.indices):
            self.indices.append(e)

    def has(self, a, b):
        return z3.And(self.N(a), self.N(b), a != b, z3.Or(self.E(a, b), self.E(b, a)))

    def near(self, a, b):
        return z3.Or(a == b, self.has(a, b))

    def dist(self, a, b):
        self.vc.fact(self.D(a, b) == self.D(b, a), self.D(a, b) >= 0, z3.Implies(self.has(a, b), self.D(a, b) <= self.fs.e))
        return self.D(a, b)

    def predicate(self, name='set'):
        return z3.Function('{}!{}'.format(name, self.vc.fresh_expr(INT, 'id').decl().name()), INT, z3.BoolSort())

    def relation(self, name='rel'):
        r = z3.Function('{}!{}'.format(name, self.vc.fresh_expr(INT, 'id').decl().name()), INT, INT, z3.BoolSort())
        return lambda a, b: z3.Or(r(a, b), r(b, a))

    def sets(self, loc):
        return [v for v in loc.values() if isinstance(v, PSet) and not isinstance(v, View)]

    def log(self, *op):
        """Effect of one iteration of a loop which is generalised to all; False if effects take place now."""
        if self.recording is None:
            return False
        self.recording.append(op)
        return True


# ---------------------------------------------------------------------- sets
def pred_of(x):
    if isinstance(x, PSet):
        return x.snapshot()
    if isinstance(x, (set, list, tuple, frozenset)) and all(isinstance(y, Nd) for y in x):
        items = [y.e for y in x]
        return lambda e: z3.Or([e == i for i in items])
    raise core.Unsupported('a set of something else than nodes')


class PSet:
    """A set of nodes."""
    kind = None

    def __init__(self, w, pred):
        self.w, self.pred = w, pred
        self.nonempty = False
        self.version = 0

    def snapshot(self):
        return self.pred

    def change(self, pred):
        if self.w.recording is not None:
            raise core.Unsupported('a set is changed in a loop in another way')
        self.pred = pred
        self.nonempty = False
        self.version += 1

    def _new(self, pred):
        return PSet(self.w, pred)

    def _vc_set(self):
        res = self._new(self.snapshot())
        res.kind = self.kind
        return res

    copy = _vc_set

    def __contains__(self, x):
        if not isinstance(x, Nd):
            raise core.Unsupported('membership of something else')
        return self.w.vc.branch(self.pred(x.e))

    def __bool__(self):
        vc = self.w.vc
        if self.nonempty or any(vc.entails(self.pred(t)) for t in self.w.special):
            return True
        if vc.choose('nonempty'):
            e = self.w.fresh('element')
            vc.fact(self.pred(e))
            self.nonempty = True
            return True
        self.is_empty()
        return False

    def is_empty(self):
        for t in list(self.w.terms):
            self.w.vc.fact(z3.Not(self.pred(t)))

    def pop(self):
        if not bool(self):
            raise KeyError('pop from an empty set')
        e = self.w.fresh('popped')
        self.w.vc.fact(self.pred(e))
        old = self.pred
        self.change(lambda x: z3.And(old(x), x != e))
        if self.kind == 'all':
            self.w.popped = e
        return Nd(self.w, e)

    def __sub__(self, other):
        a, b = self.snapshot(), pred_of(other)
        return self._new(lambda x: z3.And(a(x), z3.Not(b(x))))

    def __or__(self, other):
        a, b = self.snapshot(), pred_of(other)
        return self._new(lambda x: z3.Or(a(x), b(x)))

    def __and__(self, other):
        a, b = self.snapshot(), pred_of(other)
        return self._new(lambda x: z3.And(a(x), b(x)))

    __ror__, __rand__ = __or__, __and__
    difference, union, intersection = __sub__, __or__, __and__

    def __rsub__(self, other):
        a, b = self.snapshot(), pred_of(other)
        return self._new(lambda x: z3.And(b(x), z3.Not(a(x))))

    def __isub__(self, other):
        self.difference_update(other)
        return self

    def __ior__(self, other):
        self.update(other)
        return self

    def __iand__(self, other):
        a, b = self.snapshot(), pred_of(other)
        self.change(lambda x: z3.And(a(x), b(x)))
        return self

    def difference_update(self, other):
        a, b = self.snapshot(), pred_of(other)
        self.change(lambda x: z3.And(a(x), z3.Not(b(x))))

    def update(self, *others):
        for other in others:
            b = pred_of(other)
            if not self.w.log('set', self, b):
                a = self.snapshot()
                self.change(lambda x, a=a, b=b: z3.Or(a(x), b(x)))

    def add(self, x):
        self.update([x])

    def discard(self, x):
        self.difference_update([x])

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        self.change(lambda x: z3.BoolVal(False))

    def __iter__(self):
        raise core.Unsupported('iteration over a set of nodes')

    def __eq__(self, other):
        raise core.Unsupported('comparison of sets')

    __hash__ = object.__hash__

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('set.' + name)


class View(PSet):
    """The nodes, or the neighbours of a node, of a graph."""

    def change(self, pred):
        raise core.Unsupported('a view is changed')

    def __next__(self):
        vc = self.w.vc
        if not self.nonempty and not vc.choose('neighbour'):
            self.is_empty()
            raise StopIteration
        e = self.w.fresh('neighbour')
        vc.fact(self.pred(e))
        return Nd(self.w, e)


class NodeView(View):
    def __init__(self, g):
        self.w, self.g = g.w, g
        self.nonempty = False
        self.version = 0
        self.kind = 'all' if g.full else None

    @property
    def pred(self):
        return self.g.nodes_pred

    def snapshot(self):
        return self.g.nodes_pred

    def __call__(self, *args, **kw):
        if args or kw:
            raise core.Unsupported('nodes with options')
        return self


class All:
    """
    The union over all elements k of a sequence of {x: template(k, x)} (what a
    loop adds to a set), used by instances.
    """

    def __init__(self, w, seq, template):
        self.w, self.seq, self.template = w, seq, template
        self.u = w.predicate('union')
        self.done = set()

    def __call__(self, x):
        w, vc = self.w, self.w.vc
        key = x.get_id()
        if key not in self.done:
            self.done.add(key)
            k = vc.fresh_expr(INT, 'which')
            w.index(k)
            w.index(k - 1)
            self.seq.at(k)
            vc.fact(z3.Implies(self.u(x), z3.And(self.seq.member(k), self.template(k, x))))
        for k in [z3.IntVal(0), z3.simplify(self.seq.n - 1)] + list(w.indices):
            if (key, k.get_id()) not in self.done:
                self.done.add((key, k.get_id()))
                vc.fact(z3.Implies(z3.And(self.seq.member(k), self.template(k, x)), self.u(x)))
        return self.u(x)


# -------------------------------------------------------------------- graphs
class Gr:
    """A graph on (some) positions of the cluster."""

    def __init__(self, w, nodes, rel, readonly=False, full=False, owner=None, weighted=False):
        self.w, self.nodes_pred, self.rel = w, nodes, rel
        self.readonly, self.full = readonly, full
        self.owner = owner  # whose attributes are shared
        self.weighted = weighted
        self.version = 0
        self.view_of = None
        self.conn = {}
        self.degrees = []
        self.near_pred = w.predicate('near')
        self.first = None
        self.popped = None
        w.graphs.append(self)

    def near(self, x):
        """x is a node of the graph, or next to one (in the cluster)."""
        for t in list(self.w.terms):
            if self.w.vc.once(('near', id(self), self.version, t.get_id(), x.get_id())):
                self.w.vc.fact(z3.Implies(z3.And(self.nodes_pred(t), self.w.near(t, x)), self.near_pred(x)))
        return self.near_pred(x)

    def connected(self, a, b):
        """Unknown whether a and b are connected, kept as long as edges are only added."""
        return z3.Or([a == b] + [c for (x, y), c in self.conn.items() if (z3.eq(x, a) and z3.eq(y, b)) or (z3.eq(x, b) and z3.eq(y, a))])

    def modified(self):
        if self.readonly:
            self.w.vc.prove('the cluster is not modified', z3.BoolVal(False))
        if self.view_of is not None:
            raise core.Unsupported('a view of a graph is modified')
        self.full = False
        self.version += 1
        old = self.near_pred
        self.near_pred = self.w.predicate('near')
        for t in (self.w.v, self.w.g):
            self.w.vc.fact(z3.Implies(old(t), self.near_pred(t)))

    def grow(self, nodes=None, rel=None):
        old, orel = self.nodes_pred, self.rel
        self.modified()
        if nodes is not None:
            self.nodes_pred = lambda x: z3.Or(old(x), nodes(x))
        if rel is not None:
            self.rel = lambda a, b: z3.Or(orel(a, b), rel(a, b))

    def havoc(self, nodes=None, rel=None):
        """Any graph on positions of the cluster (which satisfies ...)."""
        w = self.w
        p, r = w.predicate('nodes'), w.relation()
        self.modified()
        self.near_pred = w.predicate('near')
        self.nodes_pred = lambda x: z3.And(w.N(x), p(x), nodes(x) if nodes else True)
        self.rel = lambda a, b: z3.And(w.has(a, b), r(a, b), self_nodes(a), self_nodes(b), rel(a, b) if rel else True)
        self_nodes = self.nodes_pred

    # -- queries
    def copy(self):
        return Gr(self.w, self.nodes_pred, self.rel, full=self.full, weighted=self.weighted)

    @property
    def nodes(self):
        return NodeView(self)

    @property
    def edges(self):
        return Edges(self)

    @property
    def degree(self):
        return Degrees(self)

    def is_node(self, x):
        if not isinstance(x, Nd):
            raise core.Unsupported('a node of another kind')
        vc = self.w.vc
        if not vc.entails(self.nodes_pred(x.e)) and not vc.branch(self.nodes_pred(x.e)):
            raise real_nx.NetworkXError('The node is not in the graph.')

    def neighbors(self, x):
        self.is_node(x)
        rel, e = self.rel, x.e
        res = View(self.w, lambda y: rel(e, y))
        res.nonempty = any(self.w.vc.entails(deg(e) >= 1) for version, deg in self.degrees if version == self.version)
        return res

    def __getitem__(self, x):
        return self.neighbors(x)

    def __contains__(self, x):
        return x in self.nodes

    has_node = __contains__

    def has_edge(self, a, b):
        return self.w.vc.branch(self.rel(a.e, b.e))

    def subgraph(self, nodes):
        p, old, rel = pred_of(nodes), self.nodes_pred, self.rel
        res = Gr(self.w, lambda x: z3.And(p(x), old(x)), lambda a, b: z3.And(rel(a, b), p(a), p(b)), owner=self, weighted=self.weighted)
        res.view_of = self
        return res

    def edge_subgraph(self, edges):
        if not isinstance(edges, Edges):
            raise core.Unsupported('edge_subgraph')
        ends, rel = edges.ends(), edges.rel()
        res = Gr(self.w, ends, rel, owner=self, weighted=self.weighted)
        res.view_of = self
        return res

    # -- modifications
    def add_node(self, x, **attrs):
        if attrs or not isinstance(x, Nd):
            raise core.Unsupported('add_node')
        vc, w = self.w.vc, self.w
        vc.prove('every node of the line is a position of the cluster', w.N(x.e))
        if w.log('node', self, x.e):
            return
        if self.first is None:
            self.first = x.e
        self.grow(nodes=lambda y, e=x.e: y == e)

    def add_nodes_from(self, nodes):
        if isinstance(nodes, SymSeq):
            raise core.Unsupported('add_nodes_from')
        p = pred_of(nodes)
        self.w.vc.prove('every node of the line is a position of the cluster', z3.Implies(p(self.w.g), self.w.N(self.w.g)))
        self.grow(nodes=p)

    def legal(self, a, b):
        self.w.vc.prove('every edge of the line is one of the cluster', self.w.has(a.e, b.e))

    def add_edge(self, a, b, **attrs):
        if not isinstance(a, Nd) or not isinstance(b, Nd):
            raise core.Unsupported('add_edge')
        self.legal(a, b)
        if self.w.log('edge', self, a.e, b.e):
            return
        self.w.added.append((self, a.e, b.e)) if hasattr(self.w, 'added') else None
        self.joined([a.e, b.e])
        self.grow(nodes=lambda y: z3.Or(y == a.e, y == b.e), rel=pair(a.e, b.e))

    def add_edges_from(self, edges):
        if isinstance(edges, SymSeq):
            k = edges.index('edge')
            self.w.index(k)
            a, b = edges.at(k)
            self.legal(a, b)
            self.chain(edges, k, a.e, b.e)
            return
        for a, b in edges:
            self.add_edge(a, b)

    def chain(self, seq, k, a, b):
        """All edges of a sequence are added, of which (a, b) is the one with index k."""
        vc, w = self.w.vc, self.w
        at = lambda e, j: z3.substitute(e, (k, j))
        for j in (z3.IntVal(0), z3.simplify(seq.n - 1)):
            seq.at(j)
        seq.at(z3.simplify(k + 1))
        whole = vc.entails(z3.Implies(seq.member(k + 1), b == at(a, k + 1)))
        empty = seq.n <= 0
        first, last = at(a, z3.IntVal(0)), at(b, z3.simplify(seq.n - 1))
        if whole:
            self.joined([first, last], empty)
            w.links.append((self, first, last, empty))
        else:
            self.joined([], empty)
        r = w.relation('chain')
        self.grow(
            nodes=All(w, seq, lambda j, x: z3.Or(x == at(a, j), x == at(b, j))),
            rel=lambda x, y: z3.And(w.has(x, y), r(x, y))
        )

    def joined(self, ends, unless=None):
        """Something which is connected is added: one of its ends is a node."""
        if self.connect:
            self.w.vc.prove('what is added to the line is connected to it', z3.Or([self.nodes_pred(e) for e in ends] + ([unless] if unless is not None else [])))

    connect = False

    def remove_edge(self, a, b):
        vc, w = self.w.vc, self.w
        vc.prove('an edge which is removed is there', self.rel(a.e, b.e))
        others = []
        for g, version, s, t, n in w.paths:
            if g is self and version == self.version:
                others.append(z3.And(n >= 3, z3.Or(z3.And(s == a.e, t == b.e), z3.And(s == b.e, t == a.e))))
        vc.prove('the ends of an edge which is removed stay connected', z3.Or(others))
        old = self.rel
        self.modified()
        self.rel = lambda x, y: z3.And(old(x, y), z3.Not(pair(a.e, b.e)(x, y)))

    def remove_nodes_from(self, nodes):
        p, old, rel = pred_of(nodes), self.nodes_pred, self.rel
        self.modified()
        self.nodes_pred = lambda x: z3.And(old(x), z3.Not(p(x)))
        self.rel = lambda a, b: z3.And(rel(a, b), z3.Not(p(a)), z3.Not(p(b)))

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('graph.' + name)

    def __iter__(self):
        raise core.Unsupported('iteration over a graph')


def pair(a, b):
    return lambda x, y: z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a))


class Edges:
    def __init__(self, g, bunch=None, data=None):
        self.g, self.bunch, self.data = g, bunch, data

    def __call__(self, nbunch=None, data=False, **kw):
        if kw:
            raise core.Unsupported('edges with options')
        return Edges(self.g, pred_of(nbunch) if nbunch is not None else None, data)

    def rel(self):
        rel, p = self.g.rel, self.bunch
        return rel if p is None else lambda a, b: z3.And(rel(a, b), z3.Or(p(a), p(b)))

    def ends(self):
        """Ends of the edges: an unknown part of what is in or next to the nodes."""
        w, p = self.g.w, self.bunch
        some = w.predicate('ends')
        if p is None:
            return lambda x: z3.And(some(x), self.g.nodes_pred(x))
        for g in w.graphs:
            if g.nodes_pred is p:
                def ends(x):
                    if self.g.full:
                        # nodes of a connected graph have edges, unless there is only one
                        vc = w.vc
                        vc.fact(z3.Implies(z3.And(p(x), w.N(x)), z3.Or(some(x), w.lonely(x))))
                        for t in list(w.terms):
                            vc.fact(z3.Implies(z3.And(w.lonely(x), w.N(x), w.N(t)), t == x))
                    return z3.And(some(x), g.near(x), w.N(x))

                return ends
        raise core.Unsupported('edges of other nodes')

    def __getitem__(self, key):
        a, b = key
        if not isinstance(a, Nd) or not isinstance(b, Nd):
            raise core.Unsupported('edge')
        vc = self.g.w.vc
        if not vc.entails(self.g.rel(a.e, b.e)) and not vc.branch(self.g.rel(a.e, b.e)):
            raise KeyError(b)
        return Attrs(self.g, a, b)

    def __contains__(self, key):
        return self.g.has_edge(*key)

    def __iter__(self):
        raise core.Unsupported('iteration over the edges')

    def _vc_sorted(self, key=None, reverse=False):
        return self

    def _vc_list(self):
        return self

    def _vc_loop(self, lid, loc, names):
        return self.g.w.edge_loop(self, loc)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('edges.' + name)


class Attrs:
    """The attributes of an edge: distance (of the cluster) and weight."""

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b

    def keys(self):
        w = self.g.w
        return [w.distance_key] + ([w.weight_key] if self.g.weighted else [])

    def __getitem__(self, key):
        w = self.g.w
        if key == w.distance_key:
            return S(w.dist(self.a.e, self.b.e))
        if key == w.weight_key:
            if not self.g.weighted:
                raise KeyError(key)
            x = w.vc.real('weight')
            w.vc.fact(x.e >= 0)
            return x
        raise KeyError(key)

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __setitem__(self, key, value):
        w, g = self.g.w, self.g
        while g is not None:
            if g.readonly:
                w.vc.prove('the cluster is not modified', z3.BoolVal(False), detail='attribute {}'.format(key))
            g = g.owner
        if key != w.weight_key:
            raise core.Unsupported('attribute {}'.format(key))
        w.vc.prove('weights are not negative', to_real(lift(value)) >= 0)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('attributes.' + name)


class Degrees:
    """(node, degree) for every node."""

    def __init__(self, g):
        self.g = g
        self.deg = z3.Function('degree!{}'.format(g.w.vc.fresh_expr(INT, 'id').decl().name()), INT, INT)
        g.degrees.append((g.version, self.deg))

    def generic(self):
        w = self.g.w
        e = w.fresh('of')
        w.vc.fact(self.g.nodes_pred(e), self.deg(e) >= 0)
        return e, (Nd(w, e), S(self.deg(e)))

    def _vc_comp(self, kind, elt, cond):
        w = self.g.w
        if kind not in ('set', 'gen', 'list'):
            raise core.Unsupported('comprehension')
        e, item = self.generic()
        res = elt(item)
        if not isinstance(res, Nd) or not z3.eq(res.e, e):
            raise core.Unsupported('something else of the degrees')
        c = core.truth(lift(cond(item))) if cond is not None else z3.BoolVal(True)
        nodes, deg = self.g.nodes_pred, self.deg
        return PSet(w, lambda x: z3.And(nodes(x), z3.substitute(c, (e, x))))

    def _vc_loop(self, lid, loc, names):
        return DegreeLoop(self, lambda vc: self.generic()[1])

    def __iter__(self):
        raise core.Unsupported('iteration over the degrees')

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('degree.' + name)


class Once:
    """A loop of which only that every iteration is legal is shown; nothing is known after it."""

    def __init__(self, item, after=None):
        self.item, self.after = item, after

    def enter(self, vc, loc, names, seq):
        return {}

    def elements(self, vc, seq):
        if vc.choose('iteration'):
            yield self.item(vc)
        elif self.after is not None:
            self.after(vc)

    def preserved(self, vc, loc):
        pass


class DegreeLoop(Once):
    """All nodes of a graph and their degrees; sets which are filled have only nodes of it."""

    def __init__(self, degrees, item):
        super().__init__(item)
        self.g = degrees.g

    def subsets(self, vc, when):
        for s in self.sets:
            vc.prove(when + ': only nodes of the graph are in the sets', z3.Implies(s.pred(self.g.w.g), self.g.nodes_pred(self.g.w.g)))

    def enter(self, vc, loc, names, seq):
        w = self.g.w
        self.sets = [s for s in w.sets(loc) if s.kind is None]
        self.subsets(vc, 'before a loop over the degrees')
        for s in self.sets:
            p, nodes = w.predicate('part'), self.g.nodes_pred
            s.change(lambda x, p=p: z3.And(p(x), nodes(x)))
        return {}

    def preserved(self, vc, loc):
        self.subsets(vc, 'in a loop over the degrees')


class Each:
    """
    A loop along a sequence, all iterations of which do the same: what one does
    is recorded and generalised.
    """
    sequential = True

    def __init__(self, w):
        self.w = w

    def enter(self, vc, loc, names, seq):
        if self.w.recording is not None:
            raise core.Unsupported('nested loops')
        return {}

    def elements(self, vc, seq):
        w = self.w
        if not vc.entails(seq.n > 0) and not vc.branch(seq.n > 0):
            return
        k = seq.index('k')
        w.index(k)
        taken = len(vc.taken)
        w.recording = []
        yield seq.at(k)
        ops, w.recording = w.recording, None
        if len(vc.taken) != taken:
            raise core.Unsupported('iterations of a loop differ')
        for op in ops:
            if op[0] == 'set':
                _, target, b = op
                old = target.snapshot()
                new = All(w, seq, lambda j, x, b=b: z3.substitute(b(x), (k, j)))
                target.change(lambda x, old=old, new=new: z3.Or(old(x), new(x)))
            elif op[0] == 'node':
                _, g, e = op
                g.grow(nodes=All(w, seq, lambda j, x, e=e: x == z3.substitute(e, (k, j))))
            else:
                _, g, a, b = op
                g.chain(seq, k, a, b)

    def preserved(self, vc, loc):
        pass


class Path(SymSeq):
    """Nodes along a path from source to target in a graph."""

    def __init__(self, g, source, target):
        w, vc = g.w, g.w.vc
        f = z3.Function('path!{}'.format(vc.fresh_expr(INT, 'id').decl().name()), INT, INT)
        n = vc.fresh_expr(INT, 'length')
        nodes, rel = g.nodes_pred, g.rel
        seen = set()

        def at(k):
            for j in (k - 1, k):
                j = z3.simplify(j)
                if j.get_id() not in seen:
                    seen.add(j.get_id())
                    keep.append(j)
                    vc.fact(z3.Implies(z3.And(j >= 0, j < n), nodes(f(j))), z3.Implies(z3.And(j >= 0, j + 1 < n), rel(f(j), f(z3.simplify(j + 1)))))
            return Nd(w, f(z3.simplify(k)))

        keep = []
        super().__init__(n, at, name='path')
        vc.fact(n >= 1, f(z3.IntVal(0)) == source, f(z3.simplify(n - 1)) == target, (n == 1) == (source == target))
        for k in (z3.IntVal(0), z3.simplify(n - 1)):
            w.index(k)
            self.at(k)


# ------------------------------------------------------------------ networkx
class Nx:
    """What is used of networkx."""
    NetworkXNoPath, NodeNotFound, NetworkXError = real_nx.NetworkXNoPath, real_nx.NodeNotFound, real_nx.NetworkXError
    NetworkXException = real_nx.NetworkXException

    def __init__(self, w):
        self.w = w
        self.checks = []

    @property
    def algorithms(self):
        return self

    def Graph(self, *args, **kw):
        if args or kw:
            raise core.Unsupported('a graph of something')
        res = Gr(self.w, lambda x: z3.BoolVal(False), lambda a, b: z3.BoolVal(False))
        self.w.made.append(res)
        res.connect = self.w.connect
        self.w.vc.fact(*[z3.Not(res.near_pred(t)) for t in (self.w.v, self.w.g)])
        return res

    def ends(self, g, source, target):
        if not isinstance(g, Gr) or not isinstance(source, Nd) or not isinstance(target, Nd):
            raise core.Unsupported('a path between something else')
        for x in (source, target):
            if not self.w.vc.entails(g.nodes_pred(x.e)) and not self.w.vc.branch(g.nodes_pred(x.e)):
                raise real_nx.NodeNotFound('not in the graph')

    def exists(self, g, a, b):
        """Is there a path?"""
        vc = self.w.vc
        if g.full or vc.entails(z3.Or(g.rel(a, b), a == b)):
            return
        if g.view_of is None and vc.entails(g.connected(a, b)):
            return
        if (a, b) and vc.choose('path'):
            self.w.joined_now(g, a, b)
            return
        for (x, y), c in g.conn.items():
            vc.fact(z3.Implies(z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a)), z3.Not(c)))
        raise real_nx.NetworkXNoPath('no path')

    def shortest_path_length(self, G, source=None, target=None, weight=None, **kw):
        if kw:
            raise core.Unsupported('options')
        w, vc = self.w, self.w.vc
        self.ends(G, source, target)
        self.exists(G, source.e, target.e)
        if weight is None:
            n = vc.int('steps', low=0)
            if G.full:
                w.lengths.append((source.e, target.e, n.e))
            return n
        x = vc.real('path_length')
        vc.fact(x.e >= 0)
        if G.full and weight == w.distance_key:
            for a, b, bound in w.bounds:
                vc.fact(z3.Implies(z3.Or(z3.And(source.e == a, target.e == b), z3.And(source.e == b, target.e == a)), x.e <= bound))
        return x

    def shortest_path(self, G, source=None, target=None, weight=None, **kw):
        if kw:
            raise core.Unsupported('options')
        w, vc = self.w, self.w.vc
        self.ends(G, source, target)
        self.exists(G, source.e, target.e)
        path = Path(G, source.e, target.e)
        w.paths.append((G, G.version, source.e, target.e, path.n))
        for s, t, n in w.lengths:
            if z3.eq(s, source.e) and z3.eq(t, target.e):
                # lemma far_node: a node in the middle is next to neither end
                j = vc.fresh_expr(INT, 'middle')
                w.index(j)
                x = path.at(j).e
                vc.fact(z3.Implies(n > 3, z3.And(path.member(j), z3.Not(w.near(s, x)), z3.Not(w.near(t, x)))))
        return path

    def is_dominating_set(self, G, nbunch):
        w, vc = self.w, self.w.vc
        if not isinstance(nbunch, NodeView):
            raise core.Unsupported('is_dominating_set')
        g = nbunch.g
        res = vc.choose('dominating')
        self.checks.append((G, g, g.version, res))
        if not G.full:
            raise core.Unsupported('dominating set of another graph')
        if res:
            for t in (w.v, w.g):
                vc.fact(z3.Implies(w.N(t), g.near(t)))
        else:
            e = w.fresh('missing')
            vc.fact(w.N(e), z3.Not(g.near(e)))
            w.special.append(e)
        return res

    def dominating_set(self, G, start_with=None):
        w, vc = self.w, self.w.vc
        if start_with is not None:
            raise core.Unsupported('start_with')
        d, nodes, rel = w.predicate('dominating'), G.nodes_pred, G.rel
        for t in w.dominated:
            dom = w.fresh('dominator')
            w.dominators[t] = dom
            vc.fact(z3.Implies(nodes(t), z3.And(d(dom), nodes(dom), z3.Or(dom == t, rel(dom, t)))))
        return PSet(w, lambda x: z3.And(d(x), nodes(x)))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('networkx.' + name)


World.connect = False
World.bounds = ()
World.dominated = ()
World.popped = None


def joined_now(self, g, a, b):
    for (x, y), c in g.conn.items():
        self.vc.fact(z3.Implies(z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a)), c))


World.joined_now = joined_now


def make_set(w):

    def fct(*args):
        if not args:
            return PSet(w, lambda x: z3.BoolVal(False))
        if isinstance(args[0], PSet):
            return args[0]._vc_set()
        if isinstance(args[0], (set, list, tuple)) and all(isinstance(x, Nd) for x in args[0]):
            return PSet(w, pred_of(args[0]))
        raise core.Unsupported('set of something')

    return fct


def setup(vc, module, **stubs):
    w = World(vc)
    w.dominators = {}
    nx = Nx(w)
    w.nx = nx
    loader = load.Loader(dict({'networkx': nx}, **stubs), builtin_stubs=dict(set=make_set(w), print=lambda *a, **k: None))
    mod = loader.load(LINE + module)
    w.distance_key = getattr(mod, '_DISTANCE_KEY', '_distance')
    w.weight_key = getattr(mod, '_WEIGHT_KEY', '_weight')
    vc.loops[lambda lid, loc, names, seq: isinstance(seq, SymSeq)] = Each(w)
    w.edge_loop = lambda edges, loc: EdgeLoop(w, edges, loc)
    return w, loader, mod


def need(mod, *names):
    for name in names:
        if not hasattr(mod, name):
            raise core.Unsupported('no {}'.format(name))


class EdgeLoop(Once):
    """All edges: weights are given to them, and maybe some are added to another graph."""

    def __init__(self, w, edges, loc):
        self.w, self.edges = w, edges
        self.loc = loc

    def elements(self, vc, seq):
        w, g = self.w, self.edges.g
        self.made = [x for x in self.loc.values() if isinstance(x, Gr) and x in w.made]
        self.versions = {id(x): x.version for x in w.graphs}
        rel = self.edges.rel()
        if vc.choose('iteration'):
            a, b = w.fresh('a'), w.fresh('b')
            vc.fact(rel(a, b))
            w.added = []
            g.weighted = True
            yield (Nd(w, a), Nd(w, b))
            return
        g.weighted = True
        for x in self.made:
            old, r = x.nodes_pred, w.relation()
            x.modified()
            x.nodes_pred = old
            # edges are added between what are nodes already
            x.rel = lambda a, b: z3.And(w.has(a, b), r(a, b), self.kept(a, b))

    def kept(self, a, b):
        return 2 * self.w.dist(a, b) < self.w.fs.e

    def preserved(self, vc, loc):
        w = self.w
        for g, a, b in w.added:
            vc.prove('positions which are taken for neighbours are less than half the feature size apart', self.kept(a, b))
            vc.prove('both are nodes already', z3.And(self.edges.g.nodes_pred(a), self.edges.g.nodes_pred(b)))
        del w.added
        for x in w.graphs:
            if x not in self.made and id(x) in self.versions and x.version != self.versions[id(x)]:
                raise core.Unsupported('a graph is changed')


# ------------------------------------------------------------ shortest paths
class Cover:
    """
    Cut of the loops of the shortest path method: every position is either
    still a candidate or covered by the line.
    """

    def __init__(self, w):
        self.w = w

    def find(self, loc):
        w = self.w
        cand = [s for s in w.sets(loc) if s.kind == 'all']
        made = [g for g in loc.values() if isinstance(g, Gr) and g in w.made]
        if len(cand) != 1 or len(made) != 1 or made[0].first is None:
            raise core.Unsupported('another loop')
        self.cand, self.result = cand[0], made[0]

    def inv(self, pending=None):
        w = self.w
        return z3.And(
            z3.Or(self.cand.pred(w.v), self.result.near(w.v), w.near(pending, w.v) if pending is not None else False),
            z3.Implies(self.cand.pred(w.g), w.N(w.g)), z3.Implies(self.result.nodes_pred(w.g), w.N(w.g)), self.result.nodes_pred(self.result.first)
        )

    def havoc(self, pending=None):
        w, r = self.w, self.result
        c = w.predicate('candidates')
        first, old = r.first, r.nodes_pred
        oldcand = self.cand.pred
        self.cand.change(lambda x: z3.And(c(x), w.N(x), oldcand(x) if pending is not None else True))
        oldnear = r.near_pred
        r.havoc()
        p = r.nodes_pred
        r.nodes_pred = lambda x: z3.And(w.N(x), z3.Or(p(x), x == first, old(x) if pending is not None else False))
        w.vc.fact(w.N(first))
        if pending is not None:
            w.vc.fact(z3.Implies(oldnear(w.v), r.near_pred(w.v)))
        w.vc.fact(self.inv(pending))


class Outer(Cover):
    def enter(self, vc, loc, names, seq):
        self.find(loc)
        w = self.w
        vc.prove('at first: every position is a candidate or covered', self.inv())
        self.others = [s for s in w.sets(loc) if s is not self.cand]
        self.subsets(vc, 'at first')
        self.rooted = [s for s in self.others if vc.entails(s.pred(self.result.first))]
        self.havoc()
        for s in self.others:
            p, nodes, first = w.predicate('part'), self.result.nodes_pred, self.result.first
            if any(s is x for x in self.rooted):
                s.change(lambda x, p=p: z3.And(nodes(x), z3.Or(p(x), x == first)))
            else:
                s.change(lambda x, p=p: z3.And(nodes(x), p(x)))
        self.before = self.cand.pred
        w.popped = None
        return {}

    def subsets(self, vc, when):
        for s in self.others:
            vc.prove(when + ': paths start from nodes of the line', z3.Implies(s.pred(self.w.g), self.result.nodes_pred(self.w.g)))

    def preserved(self, vc, loc):
        vc.prove('after a candidate: every position is a candidate or covered', self.inv())
        self.subsets(vc, 'after a candidate')
        for s in self.rooted:
            vc.prove('after a candidate: the first node is still a start', s.pred(self.result.first))
        e = self.w.popped
        vc.prove('the loop ends: a candidate is removed and none is added', z3.BoolVal(False) if e is None else z3.And(
            self.before(e), z3.Not(self.cand.pred(e)), z3.Implies(self.cand.pred(self.w.g), self.before(self.w.g))))


class Starts(Cover):
    """For every start: at least one path to the end is found."""

    def enter(self, vc, loc, names, seq):
        self.find(loc)
        self.seq = seq
        self.end = self.w.popped
        if self.end is None:
            raise core.Unsupported('another loop')
        vc.prove('before the paths: every position is a candidate, covered, or next to the end', self.inv(self.end))
        self.some = any(vc.entails(seq.pred(t)) for t in list(self.w.terms))
        self.havoc(self.end)
        self.version = seq.version
        self.graphs = [(g, g.version) for g in loc.values() if isinstance(g, Gr) and g is not self.result]
        return {}

    def unchanged(self):
        if self.seq.version != self.version:
            raise core.Unsupported('the set is changed in the loop over it')
        for g, version in self.graphs:
            if g.version != version:
                raise core.Unsupported('another graph is changed')

    def elements(self, vc, seq):
        w = self.w
        if vc.choose('iteration'):
            s = w.fresh('start')
            vc.fact(seq.pred(s))
            w.start = s
            yield Nd(w, s)
        elif self.some or vc.choose('some iteration'):
            vc.fact(self.result.nodes_pred(self.end))
        else:
            seq.is_empty()

    def preserved(self, vc, loc):
        self.unchanged()
        vc.prove('after the paths from a start: the end is on the line', self.result.nodes_pred(self.end))
        vc.prove('after the paths from a start: every position is a candidate, covered, or next to the end', self.inv(self.end))


class Paths(Cover):
    """Several paths between two positions."""

    def enter(self, vc, loc, names, seq):
        self.find(loc)
        w = self.w
        works = [g for g in loc.values() if isinstance(g, Gr) and g is not self.result and not g.readonly]
        if not works or w.popped is None or getattr(w, 'start', None) is None or len(seq) < 1 or len(names) < 1:
            raise core.Unsupported('another loop')
        works.sort(key=w.graphs.index)
        self.tmp = works[-1]
        self.others = [(g, g.version) for g in works[:-1]]
        self.end, self.start = w.popped, w.start
        vc.prove('before the first path: every position is a candidate, covered, or next to the end', self.inv(self.end))
        self.mode = vc.pick(3)
        if self.mode:
            # a later iteration, or the end
            old = self.tmp.nodes_pred
            self.tmp.havoc(nodes=lambda x: old(x))
            self.havoc(self.end)
            vc.fact(self.result.nodes_pred(self.end), self.tmp.nodes_pred(self.start), self.tmp.nodes_pred(self.end))
        # the variable of the loop has its last value in the end
        return {n: seq[-1] for n in self.targets} if self.mode == 2 else {}

    def elements(self, vc, seq):
        if self.mode == 0:
            yield seq[0]
        elif self.mode == 1 and len(seq) > 1:
            k = vc.fresh_expr(INT, 'num')
            vc.fact(k >= 1, k < len(seq))
            yield S(seq.start + k * seq.step)

    def preserved(self, vc, loc):
        if any(g.version != v for g, v in self.others):
            raise core.Unsupported('another graph is changed')
        vc.prove('after a path: the end is on the line', self.result.nodes_pred(self.end))
        vc.prove('after a path: both ends are still there', z3.And(self.tmp.nodes_pred(self.start), self.tmp.nodes_pred(self.end)))
        vc.prove('after a path: every position is a candidate, covered, or next to the end', self.inv(self.end))


def line_of(vc, w, res):
    if not isinstance(res, Gr):
        raise core.Unsupported('another result')
    vc.prove('every node of the line is a position of the cluster', z3.Implies(res.nodes_pred(w.g), w.N(w.g)))
    a, b = w.fresh('a'), w.fresh('b')
    vc.prove('every edge of the line is one of the cluster', z3.Implies(res.rel(a, b), w.has(a, b)))
    vc.prove('every position is on the line or within the feature size of a node on it', res.near(w.v))
    vc.prove('the cluster is not modified', z3.BoolVal(w.cluster.version == 0 and res is not w.cluster))


FAR = ['lemma far_node (proved on its own): on a path between positions which are more than 3 steps apart, some node is next to neither end']


@spec('C26', functions=[LINE + '_shortest_path._evaluate_line_shortest_path'], seconds=120, trusted=NX + CLUSTER + FAR + ['contracts of _update_high_degree_nodes and _update_degree_one_nodes: only weights change (verified on their own)'], scope='clusters of any size; termination is not shown')
def shortest_path_lines(vc):
    vc.coupled = 'the loops of the shortest path method'
    w, loader, mod = setup(vc, '_shortest_path')
    need(mod, '_update_high_degree_nodes', '_update_degree_one_nodes', '_evaluate_line_shortest_path')
    w.connect = True
    for name in ('_update_high_degree_nodes', '_update_degree_one_nodes'):
        setattr(mod, name, lambda graph, result_graph, known: None if not graph.readonly else vc.prove('the cluster is not modified', z3.BoolVal(False)))
    outer = Outer(w)
    vc.loops[lambda lid, loc, names, seq: seq is None] = outer
    vc.loops[lambda lid, loc, names, seq: isinstance(seq, PSet)] = Starts(w)
    vc.loops[lambda lid, loc, names, seq: isinstance(seq, range)] = Paths(w)
    res = call(vc, loader.get(LINE + '_shortest_path', '_evaluate_line_shortest_path'), graph=w.cluster, coordinate_system=None, feature_size=w.fs)
    line_of(vc, w, res)


def far_node(num):

    def check(vc):
        """
        Shortest paths of more than 3 steps between s and t; some node of any
        path between them is next to neither: the one after the last which is
        next to s (or s itself).
        """
        w = World(vc)
        s, t = w.fresh('s'), w.fresh('t')
        steps = z3.Function('steps', INT, INT, INT)  # number of steps of the shortest path

        def metric(a, b, c=None):
            vc.fact(steps(a, b) == steps(b, a), steps(a, b) >= 0, (steps(a, b) == 0) == (a == b), (steps(a, b) <= 1) == w.near(a, b))
            if c is not None:
                for x, y, z in itertools.permutations((a, b, c)):
                    vc.fact(steps(x, z) <= steps(x, y) + steps(y, z))

        x, y = w.fresh('x'), w.fresh('y')
        # x: the last node of the path next to s (s is one); y: the one after it
        for a, b, c in itertools.combinations((s, t, x, y), 3):
            metric(a, b, c)
        for a, b in itertools.combinations((s, t, x, y), 2):
            metric(a, b)
        vc.fact(steps(s, t) > 3, w.near(s, x))
        vc.prove('x is not the last node of the path', x != t)
        vc.fact(w.has(x, y), z3.Not(w.near(s, y)))
        vc.prove('the node after it is next to neither end', z3.And(z3.Not(w.near(s, y)), z3.Not(w.near(t, y))))

    return check


spec('C26', name='far_node', functions=[], seconds=30, reals=False, trusted=['the number of steps between nodes is a metric', 'a path has a last node with a property if it has one'], scope='lemma used for the shortest path method')(far_node(0))


def weights_only(name):

    def check(vc):
        vc.coupled = name
        w, loader, mod = setup(vc, '_shortest_path')
        fct = loader.get(LINE + '_shortest_path', name)
        graph = w.cluster.copy()
        graph.weighted = True
        result = Gr(w, w.N, w.has)
        result.havoc()
        some, nodes = w.predicate('known'), result.nodes_pred
        known = PSet(w, lambda x: z3.And(some(x), nodes(x)))
        vc.loops[lambda lid, loc, names, seq: isinstance(seq, PSet)] = Elements(w)
        before = [(g, g.version) for g in w.graphs]
        call(vc, fct, graph, result, known)
        vc.prove('the nodes which are noted are nodes of the line', z3.Implies(known.pred(w.g), nodes(w.g)))
        vc.prove('no graph is changed but for weights', z3.BoolVal(all(g.version == v for g, v in before)))

    return check


class Elements(Once):
    """Every element of a set."""

    def __init__(self, w):
        self.w = w

    def elements(self, vc, seq):
        if vc.choose('iteration'):
            e = self.w.fresh('of_set')
            vc.fact(seq.pred(e))
            yield Nd(self.w, e)


for _name in ('_update_high_degree_nodes', '_update_degree_one_nodes'):
    spec('C26', name='weights_only' + _name, functions=[LINE + '_shortest_path.' + _name, LINE + '_shortest_path._update_neighbour_weights'], seconds=40, trusted=NX[:1], scope='graphs of any size')(weights_only(_name))


# ------------------------------------------------------------ dominating sets
DOM = LINE + '_dominating_set.'


def bounded_link(w, u, v, du, dv):
    """An edge (u, v) of the cluster, whose ends are dominated by du and dv: how far these are apart."""
    vc = w.vc
    short = lambda d, x: z3.Or(d == x, z3.And(w.has(d, x), 2 * w.dist(d, x) < w.fs.e))
    vc.fact(w.has(u, v), short(du, u), short(dv, v), w.N(du), w.N(dv))
    part = lambda d, x: z3.If(d == x, z3.RealVal(0), w.dist(d, x))
    return part(du, u) + w.dist(u, v) + part(dv, v)


def grown(w, g):
    """More nodes and edges of the cluster are added to a graph; what is connected stays so."""
    nodes, rel = w.predicate('more'), w.relation('more')
    old = g.nodes_pred
    g.grow(nodes=lambda x: z3.And(w.N(x), nodes(x)), rel=lambda a, b: z3.And(w.has(a, b), rel(a, b), g.nodes_pred(a), g.nodes_pred(b)))


def shrunk(w, g):
    """Edges are removed whose ends stay connected."""
    rel, old = w.relation('left'), g.rel
    g.modified()
    g.rel = lambda a, b: z3.And(old(a, b), rel(a, b))


@spec('C26', functions=[DOM + '_evaluate_line_dominating_set'], seconds=60, trusted=NX + CLUSTER + ['contract of networkx.dominating_set: every node is in the set or next to one in it', 'contracts of _patch_all_subgraph_holes and _remove_duplicate_paths (verified on their own)'], scope='clusters of any size')
def dominating_set_lines(vc):
    vc.coupled = 'the steps of the dominating set method'
    w, loader, mod = setup(vc, '_dominating_set')
    need(mod, '_patch_all_subgraph_holes', '_remove_duplicate_paths')
    u = w.fresh('u')
    vc.fact(w.has(u, w.v))
    w.dominated = [u, w.v]
    log = []

    def patch(*args, subgraph, graph, coordinate_system, feature_size, candidates=None, weight=None):
        if args or candidates is not None or weight not in (None, w.distance_key):
            raise core.Unsupported('other arguments')
        vc.prove('holes are patched along paths of the cluster', z3.BoolVal(graph.full))
        vc.prove('the feature size is the given one', lift(feature_size) == w.fs.e)
        vc.prove('all edges have weights', z3.BoolVal(graph.weighted and subgraph.weighted))
        for t in w.dominated:
            if t not in w.dominators:
                raise core.Unsupported('no dominating set')
            d = w.dominators[t]
            vc.prove('the graph which is patched has the whole dominating set', subgraph.nodes_pred(d))
            vc.prove('every position is less than half the feature size from one in the set', z3.Or(d == t, z3.And(w.has(d, t), 2 * w.dist(d, t) < w.fs.e)))
        grown(w, subgraph)
        log.append(('patched', subgraph))
        subgraph.conn[(w.dominators[u], w.dominators[w.v])] = z3.BoolVal(True)

    def duplicates(subgraph):
        vc.prove('all edges have weights', z3.BoolVal(subgraph.weighted))
        shrunk(w, subgraph)

    mod._patch_all_subgraph_holes, mod._remove_duplicate_paths = patch, duplicates
    cs = types.SimpleNamespace(distance=None)
    res = call(vc, loader.get(LINE + '_dominating_set', '_evaluate_line_dominating_set'), graph=w.cluster, coordinate_system=cs, feature_size=w.fs)
    line_of(vc, w, res)
    vc.prove('positions of the set which dominate neighbours are connected', z3.BoolVal(any(g is res for _, g in log)))


class Pairs:
    """All pairs of nodes of a graph."""

    def __init__(self, w, pred):
        self.w, self.pred = w, pred

    def _vc_loop(self, lid, loc, names):
        return PairLoop(self, loc)

    def _vc_list(self):
        return self

    def __iter__(self):
        raise core.Unsupported('iteration over the pairs')


def pairs_of(w):

    def combinations(iterable, r):
        if r != 2:
            raise core.Unsupported('combinations')
        return Pairs(w, pred_of(iterable))

    return combinations


class PairLoop:
    """All pairs: the one in question, and any other one."""
    sequential = True

    def __init__(self, pairs, loc):
        self.pairs, self.w = pairs, pairs.w
        self.loc = loc

    def enter(self, vc, loc, names, seq):
        lists = [v for v in loc.values() if isinstance(v, list) and not v]
        if len(lists) != 1:
            raise core.Unsupported('another loop')
        self.todo = lists[0]
        self.versions = [(g, g.version) for g in self.w.graphs]
        return {}

    def elements(self, vc, seq):
        w = self.w
        a, b = w.ends
        vc.prove('the pair is among those which are looked at', z3.And(self.pairs.pred(a), self.pairs.pred(b), a != b))
        if vc.choose('order'):
            a, b = b, a
        yield Nd(w, a), Nd(w, b)
        w.noted = list(self.todo)
        if vc.choose('another pair'):
            c, d = w.fresh('c'), w.fresh('d')
            vc.fact(self.pairs.pred(c), self.pairs.pred(d), c != d, z3.Not(pair(*w.ends)(c, d)))
            yield Nd(w, c), Nd(w, d)
        w.todo = self.todo
        w.all_noted = list(self.todo)

    def preserved(self, vc, loc):
        if any(g.version != v for g, v in self.versions):
            raise core.Unsupported('a graph is changed while holes are looked for')


class HoleLoop:
    """The holes which were found."""

    def __init__(self, w):
        self.w = w

    def enter(self, vc, loc, names, seq):
        w = self.w
        if any(not any(x is y for y in w.all_noted) for x in seq) or len(seq) != len(w.all_noted):
            raise core.Unsupported('another loop')
        g = w.sub
        self.focus = [x for x in seq if any(x is y for y in w.noted)]
        self.other = [x for x in seq if not any(x is y for y in w.noted)]
        if not self.focus:
            vc.prove('the ends are connected, or a hole is noted', g.connected(*w.ends))
        grown(w, g)
        return {}

    def elements(self, vc, seq):
        w, g = self.w, self.w.sub
        kind = vc.pick(3)
        self.kind = kind
        if kind == 0 and self.other:
            yield self.other[0]
        elif kind == 1 and self.focus:
            yield self.focus[0]
        elif kind == 2:
            if self.focus:
                vc.fact(g.connected(*w.ends))
        else:
            raise core.PathEnd()

    def preserved(self, vc, loc):
        if self.kind == 1:
            vc.prove('a hole which was noted is closed', self.w.sub.connected(*self.w.ends))


@spec('C26', functions=[DOM + '_patch_all_subgraph_holes', DOM + '_get_path_length'], seconds=60,
      trusted=NX + CLUSTER + ['contract of the distance: not above the length of a path (triangle inequality, C04)', 'contract of _patch_subgraph_hole (verified on its own)'], scope='graphs of any size')
def patched_holes(vc):
    vc.coupled = 'the two loops which close holes'
    fake = types.ModuleType('itertools')
    fake.__getattr__ = lambda name: getattr(itertools, name)
    w, loader, mod = setup(vc, '_dominating_set', itertools=fake)
    fake.combinations = pairs_of(w)
    need(mod, '_patch_subgraph_hole')
    u, du, dv = w.fresh('u'), w.fresh('du'), w.fresh('dv')
    bound = bounded_link(w, u, w.v, du, dv)
    w.bounds = [(du, dv, bound)]
    w.ends = (du, dv)
    vc.fact(du != dv)
    g = Gr(w, w.N, w.has)
    g.havoc()
    some = g.nodes_pred
    g.nodes_pred = lambda x: z3.Or(some(x), x == du, x == dv)
    g.weighted = True
    g.conn[(du, dv)] = vc.fresh_expr(z3.BoolSort(), 'connected')
    w.sub = g
    graph = w.cluster.copy()
    graph.weighted = True

    def distance(a, b):
        if not isinstance(a, Where) or not isinstance(b, Where):
            raise core.Unsupported('distance of something else')
        x = vc.real('distance')
        a, b = a.node.e, b.node.e
        vc.fact(x.e >= 0)
        for p, q, length in w.bounds:
            vc.fact(z3.Implies(pair(p, q)(a, b), x.e <= length))
        return x

    def hole(*args, subgraph, graph, start, end):
        if args or subgraph is not g:
            raise core.Unsupported('another graph')
        vc.prove('holes are patched along paths of the cluster', z3.BoolVal(graph.full))
        vc.prove('a hole is between nodes of the graph', z3.And(g.nodes_pred(start.e), g.nodes_pred(end.e)))
        grown(w, g)
        for (x, y), c in list(g.conn.items()):
            new = vc.fresh_expr(z3.BoolSort(), 'connected')
            vc.fact(z3.Implies(c, new), z3.Implies(pair(x, y)(start.e, end.e), new))
            g.conn[(x, y)] = new

    mod._patch_subgraph_hole = hole
    holes = HoleLoop(w)
    vc.loops[lambda lid, loc, names, seq: isinstance(seq, list)] = holes
    cs = types.SimpleNamespace(distance=distance)
    before = (graph.version, w.cluster.version)
    call(vc, loader.get(LINE + '_dominating_set', '_patch_all_subgraph_holes'), subgraph=g, graph=graph, coordinate_system=cs, feature_size=w.fs)
    if getattr(w, 'todo', None) is None:
        raise core.Unsupported('another loop')
    vc.prove('positions which dominate neighbours are connected', g.connected(du, dv))
    a, b = w.fresh('a'), w.fresh('b')
    vc.prove('only nodes and edges of the cluster are added', z3.And(z3.Implies(g.nodes_pred(a), w.N(a)), z3.Implies(g.rel(a, b), w.has(a, b))))
    vc.prove('the cluster is not changed', z3.BoolVal(before == (graph.version, w.cluster.version)))


@spec('C26', functions=[DOM + '_patch_subgraph_hole'], seconds=40, trusted=NX + CLUSTER, scope='graphs of any size')
def patched_hole(vc):
    vc.coupled = 'the two loops along the path'
    w, loader, mod = setup(vc, '_dominating_set')
    g = Gr(w, w.N, w.has)
    g.havoc()
    some = g.nodes_pred
    s, t = w.fresh('s'), w.fresh('t')
    vc.fact(w.N(s), w.N(t), s != t)
    g.nodes_pred = lambda x: z3.Or(some(x), x == s, x == t)
    graph = w.cluster.copy()
    graph.weighted = g.weighted = True
    before = (graph.version, w.cluster.version)
    call(vc, loader.get(LINE + '_dominating_set', '_patch_subgraph_hole'), subgraph=g, graph=graph, start=Nd(w, s), end=Nd(w, t))
    vc.prove('the ends are connected', z3.Or([z3.And(pair(a, b)(s, t), z3.Not(empty)) for x, a, b, empty in w.links if x is g]))
    a, b = w.fresh('a'), w.fresh('b')
    vc.prove('only nodes and edges of the cluster are added', z3.And(z3.Implies(g.nodes_pred(a), w.N(a)), z3.Implies(g.rel(a, b), w.has(a, b))))
    vc.prove('nodes of the graph stay', z3.Implies(some(a), g.nodes_pred(a)))
    vc.prove('the cluster is not changed', z3.BoolVal(before == (graph.version, w.cluster.version)))


class RemoveLoop:
    """All edges with their weights: some were removed already, the current one is still there."""

    def __init__(self, w, edges):
        self.w, self.edges = w, edges

    def enter(self, vc, loc, names, seq):
        if self.edges.data != self.w.weight_key:
            raise core.Unsupported('another loop')
        shrunk(self.w, self.edges.g)
        return {}

    def elements(self, vc, seq):
        w, g = self.w, self.edges.g
        if vc.choose('iteration'):
            a, b = w.fresh('a'), w.fresh('b')
            vc.fact(g.rel(a, b))
            yield Nd(w, a), Nd(w, b), vc.real('weight')

    def preserved(self, vc, loc):
        pass


@spec('C26', functions=[DOM + '_remove_duplicate_paths'], seconds=40, trusted=NX + ['contract of networkx: a shortest path with more than two nodes does not use the edge between its ends'], scope='graphs of any size')
def duplicate_paths(vc):
    vc.coupled = 'the loop over the edges'
    w, loader, mod = setup(vc, '_dominating_set')
    g = Gr(w, w.N, w.has)
    g.havoc()
    nodes, rel = g.nodes_pred, g.rel
    g.weighted = True
    w.edge_loop = lambda edges, loc: RemoveLoop(w, edges)
    call(vc, loader.get(LINE + '_dominating_set', '_remove_duplicate_paths'), g)
    a, b = w.fresh('a'), w.fresh('b')
    vc.prove('the nodes stay', z3.BoolVal(True) if g.nodes_pred is nodes else nodes(a) == g.nodes_pred(a))
    vc.prove('edges are removed only', z3.Implies(g.rel(a, b), rel(a, b)))


@spec('C26', functions=[], seconds=20, reals=False, trusted=['induction over the steps of a path'], scope='lemma: the line of the dominating set method is connected')
def chain_of_dominators(vc):
    """
    If positions which dominate neighbours are connected then all of the set
    are: x_0, x_1, ... a path of the cluster, dom(x_k) the dominating ones.
    """
    conn = z3.Function('connected', INT, INT, z3.BoolSort())
    dom = z3.Function('dom', INT, INT)
    k = vc.fresh_expr(INT, 'k')
    vc.fact(conn(dom(0), dom(0)))  # reflexive
    vc.prove('induction starts', conn(dom(0), dom(0)))
    trans = z3.Implies(z3.And(conn(dom(0), dom(k)), conn(dom(k), dom(k + 1))), conn(dom(0), dom(k + 1)))
    vc.fact(trans, conn(dom(k), dom(k + 1)))
    vc.prove('induction step', z3.Implies(conn(dom(0), dom(k)), conn(dom(0), dom(k + 1))))


# ------------------------------------------------------------------ ballistic
BAL = LINE + '_ballistic.'
CLS = '_BallisticLineImpl'


class Vec:
    """A vector of which nothing is known."""
    _vc_symbolic = True

    def _same(self, *_args, **_kw):
        return Vec()

    __neg__ = __truediv__ = __mul__ = __rmul__ = _vc_array = copy = _same

    def _vc_norm(self, axis=None):
        x = core.cur().real('norm')
        core.cur().fact(x.e >= 0)
        return x

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('vector.' + name)


class Grow:
    """A loop in which only nodes and edges of the cluster are added to the line."""

    def __init__(self, w, find):
        self.w, self.find = w, find

    def enter(self, vc, loc, names, seq):
        w = self.w
        if len(w.made) != 1:
            raise core.Unsupported('another loop')
        self.line = w.made[0]
        nodes = [(n, v) for n, v in loc.items() if isinstance(v, Nd) and n in names]
        self.node = None
        if self.find:
            # along a line: the current node is on it
            if len(nodes) != 1:
                raise core.Unsupported('another loop')
            self.node = nodes[0][0]
            vc.prove('at first: the current position is on the line', self.line.nodes_pred(nodes[0][1].e))
        self.before = self.line.nodes_pred, [(s, s.pred) for s in self.known(loc)]
        self.line.havoc()
        p, first, old = self.line.nodes_pred, self.line.first, self.before[0]
        if self.find:
            self.line.nodes_pred = lambda x: z3.And(w.N(x), z3.Or(p(x), old(x)))
        for s, pred in self.before[1]:
            q = w.predicate('known')
            s.change(lambda x, q=q, pred=pred: z3.And(w.N(x), z3.Or(q(x), pred(x) if self.find else False)))
        self.head = self.line.nodes_pred, [(s, s.pred) for s in self.known(loc)]
        self.flags = [n for n, v in loc.items() if n in names and isinstance(v, bool)]
        res = {}
        if self.node:
            e = w.fresh('current')
            vc.fact(w.N(e), self.line.nodes_pred(e))
            res[self.node] = Nd(w, e)
            for n, v in loc.items():
                if n in names and (v is None or isinstance(v, Vec)):
                    res[n] = Vec() if vc.choose('direction') else None
                elif n in names and isinstance(v, bool):
                    res[n] = vc.choose('flag')
        self.values = dict(res)
        return res

    def known(self, loc):
        """Sets of nodes which are kept in the object."""
        return [v for v in vars(loc['self']).values() if isinstance(v, PSet) and not isinstance(v, View)] if 'self' in loc else []

    def preserved(self, vc, loc):
        w = self.w
        nodes, sets = self.head
        new = lambda before, after: [z3.And(z3.Not(before(t)), after(t)) for t in list(w.terms)]
        more = new(nodes, self.line.nodes_pred)
        keeps = [z3.Implies(nodes(w.g), self.line.nodes_pred(w.g))]
        for s, pred in sets:
            keeps.append(z3.Implies(pred(w.g), s.pred(w.g)))
            keeps.append(z3.Implies(s.pred(w.g), w.N(w.g)))
            if not self.find:
                more += new(pred, s.pred)
        vc.prove('nodes stay on the line and among those which are noted', z3.And(keeps))
        if self.find:
            more += [z3.BoolVal(True) for n in self.flags if self.values.get(n) is False and loc.get(n) is True]
        vc.prove('the loop ends: {}'.format('a node is added to the line, or it was on the line for the first time' if self.find else 'a node is added to the line or noted'), z3.Or(more))
        if self.node:
            vc.prove('after a step: the current position is on the line', self.line.nodes_pred(loc[self.node].e) if isinstance(loc.get(self.node), Nd) else z3.BoolVal(False))

    def elements(self, vc, seq):
        raise core.Unsupported('loop over a sequence')


@spec('C26', functions=[BAL + '_evaluate_line_ballistic', BAL + CLS + '.__init__', BAL + CLS + '.run', BAL + CLS + '.find_loop'], seconds=60,
      trusted=NX + CLUSTER + ['contract of networkx.is_dominating_set: whether every node is in the set or next to one in it', 'contract of get_next_pos: no node, or one next to the current one (verified on its own, bounded)'], scope='clusters of any size')
def ballistic_lines(vc):
    vc.coupled = 'the loops of the ballistic method'
    w, loader, mod = setup(vc, '_ballistic')
    need(mod, CLS)
    cls = getattr(mod, CLS)
    for name in ('run', 'find_loop', 'get_next_pos'):
        if not hasattr(cls, name):
            raise core.Unsupported('no {}'.format(name))

    def step(self, *, node, previous_direction):
        if not isinstance(node, Nd) or not (previous_direction is None or isinstance(previous_direction, Vec)):
            raise core.Unsupported('get_next_pos')
        if vc.choose('no step'):
            return None, None
        e = w.fresh('next')
        vc.fact(w.has(node.e, e))
        return Nd(w, e), Vec()

    cls.get_next_pos = step
    outer, inner = Grow(w, False), Grow(w, True)
    started = []

    def is_outer(lid, loc, names, seq):
        if seq is not None or started:
            return False
        started.append(lid)
        return True

    def is_inner(lid, loc, names, seq):
        return seq is None and lid not in started

    vc.loops[is_inner] = inner
    vc.loops[is_outer] = outer
    cs = types.SimpleNamespace(connecting_vector=lambda a, b: Vec())
    res = call(vc, loader.get(LINE + '_ballistic', '_evaluate_line_ballistic'), graph=w.cluster, coordinate_system=cs, feature_size=w.fs)
    if not started:
        raise core.Unsupported('no loop')
    line_of(vc, w, res)


class Token:
    """A position, of which only the vectors to others are known."""

    def __init__(self, name):
        self.name = name

    def _vc_array(self, dtype=None):
        return Where(self)

    def __repr__(self):
        return self.name


def next_position(num, dim, marks):

    def check(vc):
        vc.coupled = 'get_next_pos'
        loader = load.Loader({'networkx': real_nx})
        cls = loader.get(LINE + '_ballistic', CLS)
        mod = loader.load(LINE + '_ballistic')
        need(cls, 'get_next_pos')
        key = getattr(mod, '_DISTANCE_KEY', '_distance')
        node = Token('node')
        nbrs = [Token('neighbour {}'.format(k)) for k in range(num)]
        graph, line = real_nx.Graph(), real_nx.Graph()
        size = vc.real('feature_size')
        vc.assume(size > 0)
        vecs = []
        for n in nbrs:
            d = vc.real('distance')
            vc.assume(z3.And(d.e >= 0, d.e <= size.e))
            graph.add_edge(node, n, **{key: d})
            vecs.append([vc.real('x') for _ in range(dim)])
        line.add_node(node)
        for n in nbrs:
            # on the line or not, with degree 0, 1 or 3
            kind = vc.pick(4) if marks else 0
            if kind:
                line.add_node(n)
                for k in range((0, 0, 1, 3)[kind]):
                    line.add_edge(n, 'other {} {}'.format(n, k))
        before = [(dict(g.adj), dict(g.nodes)) for g in (graph, line)]

        def connecting_vector(a, b):
            if isinstance(b, Where):
                return shims.Arr(vecs[nbrs.index(b.node)])
            return shims.Arr(vecs)

        impl = cls(graph=graph, coordinate_system=types.SimpleNamespace(connecting_vector=connecting_vector), feature_size=size)
        impl.result_graph = line
        prev = shims.Arr([vc.real('p') for _ in range(dim)]) if vc.choose('direction') else None
        new, direction = call(vc, impl.get_next_pos, node=node, previous_direction=prev)
        vc.prove('the next position is next to the current one', z3.BoolVal(new is None or any(new is n for n in nbrs)))
        vc.prove('nothing is changed', z3.BoolVal(before == [(dict(g.adj), dict(g.nodes)) for g in (graph, line)]))
        if new is None and prev is None:
            # only without any position to go to
            vc.prove('without a direction, the search goes on if there is a position elsewhere', z3.And([z3.And([lift(x) == 0 for x in vec]) for vec in vecs]))

    return check


for _num, _dim, _marks in ((1, 1, True), (1, 2, True), (2, 1, True), (2, 2, False), (3, 1, False)):
    spec('C26', name='next_position_{}_{}d{}'.format(_num, _dim, '' if _marks else '_off_line'), functions=[BAL + CLS + '.get_next_pos'], seconds=60, trusted=NX[:1],
         scope='bounded: {} neighbours, dimension {}, any vectors{}'.format(_num, _dim, '' if _marks else ', none on the line'))(next_position(_num, _dim, _marks))


# ------------------------------------------------------------------- methods
METHODS = ['shortest_path', 'dominating_set', 'ballistic']


@spec('C26', functions=[LINE + '_run._evaluate_line'], seconds=30, reals=False, trusted=['contracts of the three methods (as above)'], scope='every method, and any other name')
def methods(vc):
    vc.coupled = 'the names of the functions of the methods'
    calls = []
    made = []
    graph, cs, size = object(), object(), object()

    class Line:
        def __init__(self, *args, **kw):
            made.append((args, kw))

    def method(name):

        def run(**kw):
            calls.append((name, kw))
            return result

        return run

    result = real_nx.Graph()
    result.add_edge('a', 'b')
    stubs = {LINE + '_' + m: types.SimpleNamespace(**{'_evaluate_line_' + m: method(m)}) for m in METHODS}
    stubs['nodefinder.identify.result'] = types.SimpleNamespace(NodalLine=Line)
    loader = load.Loader(stubs)
    fct = loader.get(LINE + '_run', '_evaluate_line')
    k = vc.pick(5)
    kw = {} if k == 4 else dict(method=(METHODS + ['another'])[k])
    try:
        res = call(vc, fct, graph=graph, coordinate_system=cs, feature_size=size, **kw)
    except ValueError:
        vc.prove('only another name is refused', z3.BoolVal(k == 3))
        return
    vc.prove('another name is refused', z3.BoolVal(k != 3))
    want = [(METHODS[k], dict(graph=graph, coordinate_system=cs, feature_size=size))] if k < 3 else [(calls[0][0], dict(graph=graph, coordinate_system=cs, feature_size=size))] if calls else None
    vc.prove('the method which is asked for is run once, on the cluster', z3.BoolVal(want is not None and calls == want))
    ok = len(made) == 1 and not made[0][0] and made[0][1].get('graph') is result and isinstance(res, Line)
    vc.prove('the line has the graph of the method', z3.BoolVal(ok))
    vc.prove('the graph of the method is not changed', z3.BoolVal(sorted(result.nodes) == ['a', 'b'] and result.number_of_edges() == 1))
