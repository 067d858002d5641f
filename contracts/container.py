"""C09, C10: classification of results and the fake potential."""
import types

import z3

from pyvc import core, shims
from pyvc.core import S, lift, to_real
from pyvc.shims import Arr
from pyvc.seq import SymSeq
from . import spec
from .coord import call
from .cells import World, State, Stored, MOD, CELL, CSYS

FUNS = [MOD + '.SearchResultContainer.' + n for n in ('__init__', 'add_result', 'minimization_results')
        ] + [CELL + '.CellList.' + n for n in ('__init__', 'add_point', 'get_index', 'values', '__len__', '__iter__', '__getitem__')] + [CSYS + '.CoordinateSystem.' + n for n in ('normalize_position', 'get_frac')]


class Res(types.SimpleNamespace):
    pass


def result(w, name):
    vc = w.vc
    r = Res(pos=w.position(name), value=vc.real('value_' + name), success=vc.bool('success_' + name), tag=object())
    r.was = dict(vars(r), pos=r.pos.copy())
    return r


def accepted(w, r):
    return z3.And(r.was['success'].e, to_real(lift(r.was['value'])) <= to_real(lift(w.threshold)))


def unchanged(w, r, which=('value', 'success', 'tag')):
    return all(vars(r).get(k) is r.was[k] for k in which) and set(vars(r)) == {'pos', 'value', 'success', 'tag', 'was'}


def normalized(w, r):
    want = w.cs.normalize_position(r.was['pos'].copy())
    conds = [to_real(lift(a)) == to_real(lift(b)) for a, b in zip(r.pos, want)]
    if w.periodic:
        conds += [z3.And(to_real(lift(x)) >= lift(l), to_real(lift(x)) < lift(l) + lift(s)) for x, l, s in zip(r.pos, w.lo, w.s)]
    return z3.And(conds)


def same(items, expected):
    items = list(items)
    return len(items) == len(expected) and all(a is b for a, b in zip(items, expected))


def classification(dim, num):
    """Through the public interface: num results, some passed to the constructor."""

    def check(vc):
        w = World(vc, dim)
        rs = [result(w, 'r{}'.format(k)) for k in range(num)]
        first = vc.pick(num, 'initial')
        cont = w.container(minimization_results=rs[:first])
        good, bad = [], []
        for k, r in enumerate(rs):
            if k >= first:
                ret = call(vc, cont.add_result, r)
                vc.prove('it is reported as a node exactly if it was successful with a value of at most the threshold', core.truth(S(lift(ret)) if not isinstance(ret, S) else ret) == accepted(w, r))
            (good if vc.branch(accepted(w, r)) else bad).append(r)
        # the lists, in order
        vc.prove('it is stored among the nodes exactly if it is one, in order', z3.BoolVal(same(cont.nodes.values(), good)))
        vc.prove('iteration, indexing and length of the nodes agree', z3.BoolVal(
            same(iter(cont.nodes), good) and len(cont.nodes) == len(good) and all(cont.nodes[k] is g and cont.nodes[k - len(good)] is g for k, g in enumerate(good))))
        vc.prove('it is stored among the rejected results otherwise, in order', z3.BoolVal(same(cont.rejected_results, bad)))
        vc.prove('all results are the nodes followed by the rejected ones', z3.BoolVal(same(cont.minimization_results, good + bad)))
        given = cont.minimization_results
        if isinstance(given, list):
            given.append(None)
        vc.prove('looking at the results does not change them', z3.BoolVal(
            same(cont.nodes.values(), good) and len(cont.nodes) == len(good) and same(cont.rejected_results, bad) and same(cont.minimization_results, good + bad)))
        vc.prove('the results are not changed otherwise', z3.BoolVal(all(unchanged(w, r) for r in rs)))
        for r in rs:
            vc.prove('the position is normalised into the box', normalized(w, r))

    return check


for _dim, _num in ((1, 3), (2, 2), (3, 1)):
    spec('C09', name='classification_{}d'.format(_dim), functions=FUNS, seconds=60, scope='dimension {}, {} results, through the public interface'.format(_dim, _num))(classification(_dim, _num))


def add_to_any(dim, periodic):
    """One more result is added to any container."""

    def check(vc):
        w = World(vc, dim, periodic=periodic)
        st = State(vc, w, 'nodes')
        cont = st.cont
        if cont.rejected_results != []:
            raise core.Unsupported('different representation of the rejected results')
        old = object()
        rejected = Stored(SymSeq.new(lambda k: old, 'rejected'))
        cont.rejected_results = rejected
        refined = [list(cont.refined_results.values())]
        r = result(w, 'new')
        ret = call(vc, cont.add_result, r)
        ok = vc.branch(accepted(w, r))
        vc.prove('the return value says if it is a node', core.truth(S(lift(ret)) if not isinstance(ret, S) else ret) == z3.BoolVal(ok))
        if cont.nodes is not st.cells:
            raise core.Unsupported('other nodes')

        def entries(x, seq):
            """earlier entries and those which were added"""
            parts = content(x)
            if not parts or parts[0] is not seq:
                return None
            return parts[1:]

        def lists():
            return entries(st.cells._values_flat, st.flat), entries(cont.rejected_results, rejected.seq)

        nodes, bad = lists()
        vc.prove('the earlier entries are kept', z3.BoolVal(nodes is not None and bad is not None))
        if nodes is not None and bad is not None:
            vc.prove('it comes last among the nodes exactly if it is one', z3.BoolVal(same(nodes, [r] if ok else [])))
            vc.prove('it comes last among the rejected results otherwise', z3.BoolVal(same(bad, [] if ok else [r])))
            vc.prove('the length is the number of nodes', lift(cont.nodes.__len__()) == st.flat.n + (1 if ok else 0))
            k = st.flat.index('k')
            vc.prove('the nodes are indexed in order of insertion', z3.BoolVal(cont.nodes[S(k)] is st.flat.at(k)))
            given = cont.minimization_results
            every = content(given)
            if hasattr(given, 'append'):
                given.append(None)
            vc.prove('all results are the nodes followed by the rejected ones', z3.BoolVal(same(every, [st.flat] + ([r] if ok else []) + [rejected.seq] + ([] if ok else [r]))))
            nodes, bad = lists()
            vc.prove('looking at the results does not change them', z3.BoolVal(
                cont.nodes is st.cells and nodes is not None and same(nodes, [r] if ok else []) and bad is not None and same(bad, [] if ok else [r])))
            it = cont.nodes.__iter__()
            if not isinstance(it, Iter):
                raise core.Unsupported('iteration of another kind')
            vc.prove('iteration gives the nodes in order of insertion', z3.BoolVal(same(content(it.of), [st.flat] + ([r] if ok else []))))
        vc.prove('the result is not changed otherwise', z3.BoolVal(unchanged(w, r)))
        vc.prove('the position is normalised into the box', normalized(w, r))
        vc.prove('the container needs to be saved', z3.BoolVal(cont.needs_saving is True))
        vc.prove('the refined positions stay', z3.BoolVal(refined == [list(cont.refined_results.values())]))

    return check


class Iter:
    def __init__(self, of):
        self.of = of


class Joined:
    """Several lists, one after the other."""
    _vc_symbolic = True

    def __init__(self, parts):
        self.parts = parts

    def append(self, x):
        self.parts.append([x])

    def _vc_len(self):
        return sum(shims.b_len(p) for p in self.parts)

    def _vc_iter(self):
        return Iter(self)


def content(x):
    """Unknown sequences and single entries of a list."""
    if isinstance(x, Stored):
        return [x.seq] + list(x.new)
    if isinstance(x, Joined):
        return [e for p in x.parts for e in content(p)]
    if isinstance(x, Iter):
        return content(x.of)
    if isinstance(x, (list, tuple)):
        return list(x)
    raise core.Unsupported('list of another kind')


def _getitem(self, key):
    vc = core.cur()
    k = lift(key)
    if not vc.entails(z3.And(k >= 0, k < self.seq.n)):
        raise core.Unsupported('index')
    return self.seq.at(k)


def _extend(self, other):
    self.new.extend(content(other))
    return self


def snapshot(x):
    """a list with the same entries, which does not change with it"""
    res = Stored(x.seq)
    res.new = list(x.new)
    return res


Stored.__getitem__ = _getitem
Stored._vc_iter = lambda self: Iter(self)
Stored.__add__ = lambda self, other: Joined([snapshot(self), snapshot(other) if isinstance(other, Stored) else list(other)])
Stored.__iadd__ = _extend
Stored.extend = lambda self, other: _extend(self, other) and None
Stored.copy = snapshot
Stored._vc_list = snapshot

for _dim in (1, 2, 3):
    for _per in (False, True):
        spec('C09', name='add_{}d_{}'.format(_dim, 'periodic' if _per else 'open'), functions=FUNS, seconds=60, scope='dimension {}, any number of earlier results'.format(_dim))(add_to_any(_dim, _per))


# ---- fake potential, against the contract of the lookup (C07, C08)
FAKE = 'nodefinder.search._fake_potential'


class Nearby:
    """
    A result with any number of nodes: the distances which are reported are
    those of the nodes reported, all of those closer than the cutoff.
    """

    def __init__(self, vc, cut):
        self.vc, self.cut = vc, cut
        self.version = 0
        self.calls = []
        self.change()

    def change(self):
        """The nodes at some later time."""
        vc = self.vc
        self.version += 1
        d = z3.Function('distance_of_node{}'.format(self.version), z3.IntSort(), z3.RealSort())
        here = z3.Function('at_the_position{}'.format(self.version), z3.IntSort(), z3.BoolSort())
        rep = z3.Function('reported{}'.format(self.version), z3.IntSort(), z3.BoolSort())
        self.nodes = SymSeq.new(lambda k: S(d(k)), 'nodes{}'.format(self.version))
        self.d, self.here, self.rep = d, here, rep
        self.seq = SymSeq(self.nodes.n, self.nodes.fct, cond=lambda k: z3.And(rep(k), z3.Not(here(k))), name='distances')._share(self.nodes)
        # C07: none closer than the cutoff is missing
        self.nodes.for_all(lambda k: z3.And(d(k) >= 0, z3.Implies(z3.And(d(k) < lift(self.cut), z3.Not(here(k))), rep(k)), z3.Implies(here(k), d(k) == 0)))

    def distances(self, pos):
        if not isinstance(pos, shims.GV):
            raise core.Unsupported('position of another kind')
        self.calls.append(pos.copy())
        return self.seq

    get_all_neighbour_distances = get_neighbour_distance_iterator = distances

    dist_cutoff = property(lambda self: self.cut)

    def __setattr__(self, name, val):
        if name in ('nodes', 'rejected_results', 'refined_results', 'needs_saving') and 'seq' in vars(self) and not vars(self).get('free'):
            raise core.Unsupported('changes the result')
        object.__setattr__(self, name, val)


@spec('C10', functions=[FAKE + '.FakePotential.__init__', FAKE + '.FakePotential.__call__'], seconds=60, scope='any dimension, any number of nodes',
      trusted=['contract of the neighbour lookup as proved in C07 and C08'])
def fake_potential(vc):
    from pyvc import load
    cls = load.Loader().get(FAKE, 'FakePotential')
    cut, width = vc.real('cut'), vc.real('width')
    vc.assume(cut > 0, width >= 0, width <= cut)
    near = Nearby(vc, cut)
    pot = call(vc, cls, near, width)
    pos = shims.new_vector('pos')
    before = pos.copy()
    for step in range(2):
        near.free = True
        if step:
            near.change()
        near.free = False
        val = call(vc, pot, pos)
        k = near.nodes.index('k')
        near.seq.instantiate(k)
        close = z3.And(near.d(k) < width.e, z3.Not(near.here(k)))
        infinite = isinstance(val, float) and val == float('inf')
        if infinite:
            # the witness: some element of the sequence
            w = near.nodes.some('w')
            none = z3.BoolVal(True)
            vc.prove('infinite only if a node is closer than the width', exists_close(vc, near, width))
        else:
            vc.prove('zero otherwise', z3.BoolVal(not isinstance(val, S) and val == 0) if not isinstance(val, S) else to_real(val.e) == 0)
            vc.prove('infinite if a node is closer than the width', z3.Not(close))
        i = vc.index('gen')
        vc.prove('the position is not modified', to_real(lift(pos.at(i))) == to_real(lift(before.at(i))))
        vc.prove('it is evaluated at the position', z3.And([to_real(lift(p.at(i))) == to_real(lift(before.at(i))) for p in near.calls]))


def exists_close(vc, near, width):
    """
    Some node is closer than the width: the negation (no node is) is assumed
    for all nodes, which has to be impossible.
    """
    b = vc.fresh_expr(z3.BoolSort(), 'some_close')
    near.nodes.for_all(lambda k: z3.Implies(z3.Not(b), z3.Not(z3.And(near.d(k) < width.e, z3.Not(near.here(k))))))
    for w in list(vc.witnesses):
        near.nodes.instantiate(w)
    return b
