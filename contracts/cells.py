"""
C07, C08: neighbour lookup. The dimension is 1 to 3 (one specification each),
everything else is arbitrary: limits, cutoff, positions, number of cells.
"""
import types

import z3

from pyvc import core, shims, load
from pyvc.core import S, And, Or, Not, Implies, lift, to_real, prod as P
from pyvc.shims import Arr, NP
from pyvc.seq import SymSeq, Spread, Mixed
from . import spec
from .coord import call

MOD = 'nodefinder.search.result._search_result_container'
CELL = 'nodefinder.search.result._cell_list'
CSYS = 'nodefinder.coordinate_system'
FUNS = [MOD + '.SearchResultContainer.' + n for n in (
    '__init__', 'add_result', 'set_refined', '_get_neighbour_iterator', 'get_neighbour_distance_iterator', 'get_refined_neighbour_distance_iterator', 'get_all_neighbour_distances'
)] + [CELL + '.CellList.' + n for n in ('__init__', 'add_point', 'get_index', 'get_neighbour_values', '_get_neighbour_indices', '_calculate_neighbour_indices')]


def scaled(x, s, cut, r):
    return [P(x, s) < cut, P(r, cut) == s, s > 0, cut > 0], P(x, r) < 1


def smaller(x, r, n):
    return [P(x, r) < 1, n > 0, n <= r], P(x, n) < 1


def unit(u, n):
    return [u >= 0, u < 1, n >= 1], z3.And(P(u, n) >= 0, P(u, n) < n)


def multiples(n, k):
    """multiples of a positive number with an integer k"""
    return [n > 0], z3.And(*[z3.Implies(k >= j, P(n, k) >= j * n) for j in (-1, 0, 1, 2)] + [z3.Implies(k <= j, P(n, k) <= j * n) for j in (-2, -1, 0, 1)])


class World:
    """A coordinate system of dimension dim and a container."""

    def __init__(self, vc, dim, periodic=None, zero=False):
        self.vc, self.dim = vc, dim
        vc.auto_lemmas = False
        vc.linear = True
        self.loader = load.Loader()
        self.lo = [vc.real('lo') for _ in range(dim)]
        self.s = [vc.real('size') for _ in range(dim)]
        for s in self.s:
            vc.assume(s > 0)
        self.periodic = vc.choose('periodic') if periodic is None else periodic
        cls = self.loader.get(CSYS, 'CoordinateSystem')
        self.cs = cls(limits=[(l, l + s) for l, s in zip(self.lo, self.s)], periodic=self.periodic)
        self.cut = vc.real('cut')
        vc.assume(self.cut > 0)
        if zero:
            self.cut = 0
        self.dists = z3.Function('dist', *([z3.RealSort()] * (2 * dim + 1)))
        self.shifts = [z3.Function('period{}'.format(i), *([z3.RealSort()] * (2 * dim) + [z3.IntSort()])) for i in range(dim)]
        self.cs.distance = self.distance
        self.threshold = vc.real('threshold')
        self.container_cls = self.loader.get(MOD, 'SearchResultContainer')

    # contract of CoordinateSystem.distance (proved in C04)
    def distance(self, p, q):
        if isinstance(q, Mixed):
            return q.map(lambda x: self.distance(p, x))
        if isinstance(q, Arr) and q.a.ndim == 2:
            return Arr([self.distance(p, Arr(row)) for row in q.a])
        if isinstance(p, Arr) and p.a.ndim == 2:
            return Arr([self.distance(Arr(row), q) for row in p.a])
        return self.dist(p, q)

    def dist(self, p, q):
        vc = self.vc
        a, b = [[to_real(lift(x)) for x in v] for v in (p, q)]
        d = self.dists(*(a + b))
        key = ('dist', d.get_id())
        if key not in vc.memo:
            vc.memo[key] = d
            vc.fact(d >= 0)
            for i in range(self.dim):
                v = b[i] - a[i]
                if self.periodic:
                    v = v + P(to_real(self.s[i].e), z3.ToReal(self.shifts[i](*(a + b))))
                vc.fact(v <= d, -v <= d)
        return S(d)

    def shift(self, p, q, i):
        a, b = [[to_real(lift(x)) for x in v] for v in (p, q)]
        return z3.ToReal(self.shifts[i](*(a + b))) if self.periodic else z3.RealVal(0)

    def position(self, name):
        return Arr([self.vc.real(name) for _ in range(self.dim)])

    def container(self, **kw):
        return call(self.vc, self.container_cls, coordinate_system=self.cs, gap_threshold=self.threshold, dist_cutoff=self.cut, **kw)

    def node(self, name='node', pos=None, success=True):
        """Result of a minimization which is accepted as a node."""
        vc = self.vc
        value = vc.real('value_' + name)
        vc.assume(value <= self.threshold)
        return types.SimpleNamespace(pos=self.position(name) if pos is None else pos, value=value, success=success)

    def hints(self, grid, p, q):
        """
        Why the cells of p (stored) and q (queried) are adjacent if they are
        closer than the cutoff; instances of lemmas only.
        """
        vc = self.vc
        fp, fq = self.cs.get_frac(p), self.cs.get_frac(q)
        cut = lift(self.cut)
        wraps = []
        for i in range(self.dim):
            total = lift(grid.shape[i])
            nr = core.named(z3.ToReal(z3.simplify(total if self.periodic else total - 2)))
            s = lift(self.s[i])
            r = core.divide(s, cut)
            # difference of the linear coordinates (up to periods)
            kk = self.shift(q, p, i)
            x = core.divide(to_real(lift(p[i])) - lift(self.lo[i]), s) - core.divide(to_real(lift(q[i])) - lift(self.lo[i]), s) + kk
            for y in (x, -x):
                vc.lemma('scaled', 4, scaled)(S(y), S(s), S(cut), S(r))
                vc.lemma('smaller', 3, smaller)(S(y), S(r), S(nr))
            if self.periodic:
                for f in (fp, fq):
                    vc.lemma('unit', 2, unit)(f[i], S(nr))
                # whole periods between the two
                up = core.divide(to_real(lift(p[i])) - lift(self.lo[i]), s) - lift(fp[i])
                uq = core.divide(to_real(lift(q[i])) - lift(self.lo[i]), s) - lift(fq[i])
                wrap = z3.simplify(up - uq + kk)
                whole = vc.fresh_expr(z3.IntSort(), 'whole')
                vc.fact(z3.ToReal(whole) == wrap)  # a sum of integers
                vc.lemma('multiples', 2, multiples)(S(nr), S(wrap))
                wrap = whole
                wraps.append((nr, wrap))
        return wraps


def entries(items):
    return list(items)


def lookup(vc, w, cont, which, q):
    """(list of reported distances)"""
    if which == 'nodes':
        res = call(vc, cont.get_neighbour_distance_iterator, q)
    elif which == 'all':
        res = call(vc, cont.get_all_neighbour_distances, q)
    else:
        res = call(vc, cont.get_refined_neighbour_distance_iterator, q)
    return call(vc, list, res)


def differs(p, q):
    return z3.Or([to_real(lift(a)) != to_real(lift(b)) for a, b in zip(p, q)])


def api_lookup(dim, which):
    """
    Through the public interface only: a position is stored and another one
    around it, then positions are queried.
    """

    def check(vc):
        w = World(vc, dim)
        cont = w.container()
        q = w.position('q')
        order = vc.choose('order')
        if which == 'refined':
            stored = [w.position('p'), w.position('other')]
            for k in ((0, 1) if order else (1, 0)):
                call(vc, cont.set_refined, stored[k])
            p = [s.copy() for s in stored]
        else:
            stored = [w.node('p'), w.node('other')]
            for k in ((0, 1) if order else (1, 0)):
                call(vc, cont.add_result, stored[k])
            p = [s.pos for s in stored]
        # distances are told apart, and different from each other
        q0 = q.copy()
        d = [lift(w.dist(q0, x)) for x in p]
        res = lookup(vc, w, cont, which, q)
        for g in vc.grids:
            for x in p:
                w.hints(g, x, q)
        other = z3.BoolVal(True) if which == 'refined' else differs(p[0], q0)
        found = [lift(r) == d[0] for r in res]
        vc.prove('a node closer than the cutoff is reported', z3.Implies(z3.And(d[0] < to_real(lift(w.cut)), other), z3.Or(found)))
        for r in res:
            vc.prove('only distances of stored positions are reported', z3.Or(lift(r) == d[0], lift(r) == d[1]))
        once = z3.Sum([z3.If(f, 1, 0) for f in found] + [z3.IntVal(0), z3.IntVal(0)])
        vc.prove('every stored position is reported once', z3.Implies(d[0] != d[1], once <= 1))
        if which != 'refined':
            vc.prove('a node at the position itself is not reported', z3.Implies(z3.And(z3.Not(differs(p[0], q0)), d[0] != d[1]), once == 0))

    return check


for _which in ('nodes', 'all', 'refined'):
    spec('C07', 'C08', name='lookup_{}'.format(_which), functions=FUNS, seconds=100, scope='dimension 1, two stored positions in either order, through the public interface',
         trusted=['contract of CoordinateSystem.distance as proved in C04'])(api_lookup(1, _which))


# ---- any number of stored positions: representation invariant of CellList
#   _values_flat is the sequence of stored values, in order of insertion;
#   cell c holds exactly the values whose index (get_index of the fractional
#   coordinates of the position) is c, in order of insertion.
NAMES = {'periodic', 'num_cells', '_total_num_cells', '_cells', '_values_flat', '_neighbour_offset', '_neighbour_indices'}


class State:
    """A container in an arbitrary state which satisfies the invariant."""

    def __init__(self, vc, w, attr):
        vc.coupled = 'representation invariant of CellList'
        self.w = w
        self.cont = w.container()
        self.attr = attr
        self.cells = getattr(self.cont, attr)
        cl = self.cells
        if set(vars(cl)) != NAMES or not isinstance(cl._cells, shims.VGrid) or cl._values_flat != [] or cl._neighbour_indices != {}:
            raise core.Unsupported('different representation of the cells')
        if any(g.cells for g in vc.grids):
            raise core.Unsupported('cells in use')
        # what __init__ establishes: no value, every cell empty
        vc.prove('initially no value is stored', z3.BoolVal(cl._cells.default(None) == []))
        f = [z3.Function('stored{}'.format(i), z3.IntSort(), z3.RealSort()) for i in range(w.dim)]
        g = z3.Function('stored_value', z3.IntSort(), z3.RealSort())

        def value(k):
            pos = Arr([S(fi(k)) for fi in f])
            return types.SimpleNamespace(pos=pos, value=S(g(k)), success=True) if attr == 'nodes' else pos

        self.flat = SymSeq.new(value, 'stored')
        self.index = {}
        cl._cells.base = self.content
        cl._values_flat = Stored(self.flat)

    def pos(self, k):
        x = self.flat.at(k)
        return x.pos if self.attr == 'nodes' else x

    def home(self, pos):
        """The cell of a position (by the real code)."""
        return self.cells.get_index(self.w.cs.get_frac(pos))

    def home_of(self, k):
        key = k.get_id()
        if key not in self.index:
            self.index[key] = (tuple(z3.simplify(lift(i)) for i in self.home(self.pos(k))), k)
        return self.index[key][0]

    def content(self, key):
        def cond(k):
            return z3.And([a == lift(b) for a, b in zip(self.home_of(k), key)])

        res = SymSeq(self.flat.n, self.flat.fct, cond=cond, name='cell')._share(self.flat)
        res.cell = key
        return res


class Stored:
    """The list of stored values: unknown ones, then those appended."""
    _vc_symbolic = True

    def __init__(self, seq):
        self.seq, self.new = seq, []

    def append(self, x):
        self.new.append(x)

    def _vc_len(self):
        return self.seq._vc_len() + len(self.new)


def any_number(dim, which, periodic, inner=False):

    def check(vc):
        w = World(vc, dim, periodic=periodic)
        attr = 'refined_results' if which == 'refined' else 'nodes'
        vc.local_hubs = [lift(w.cut)]
        st = State(vc, w, attr)
        q = w.position('q')
        if inner:
            for i, n in zip(st.home(q), st.cells._cells.shape):
                vc.assume(S(z3.And(lift(i) >= 2, lift(i) < lift(n) - 2)))
        res = lookup(vc, w, st.cont, which, q.copy())
        k = st.flat.index('k')
        p = st.pos(k)
        d = lift(w.dist(q, p))
        wraps = w.hints(st.cells._cells, p, q)
        if not all(isinstance(r, Spread) for r in res):
            raise core.Unsupported('distances of something else')
        for r in res:
            r.seq.instantiate(k)
        # which of the neighbouring cells
        total = [lift(n) for n in st.cells._cells.shape]
        home, here = st.home_of(k), [lift(i) for i in st.home(q)]
        near = vc.fresh_expr(z3.BoolSort(), 'near')
        vc.fact(near == (d < to_real(lift(w.cut))))
        other = vc.fresh_expr(z3.BoolSort(), 'other')
        vc.fact(other == (z3.BoolVal(True) if which == 'refined' else differs(p, q)))
        hubs = [near, d, lift(w.cut), k, st.flat.n]
        for i in range(dim):
            steps = []
            if periodic:
                nr, wrap = wraps[i]
                diff = z3.ToReal(home[i]) - z3.ToReal(here[i]) + P(nr, z3.ToReal(wrap))
                for cell, pos in ((home, p), (here, q)):
                    t = core.floor_trunc(w.cs.get_frac(pos)[i] * S(total[i])).e
                    vc.hint(z3.And(t >= 0, t < total[i]), hubs=hubs)
                    vc.hint(cell[i] == t, hubs=hubs)
                vc.hint(z3.Implies(z3.And(near, total[i] >= 2), z3.And(diff < 2, diff > -2)), hubs=hubs)
                vc.hint(z3.Implies(z3.And(near, total[i] >= 2), z3.Or([z3.And(wrap == o, home[i] - here[i] + o * total[i] <= 1, home[i] - here[i] + o * total[i] >= -1) for o in (-1, 0, 1)])), hubs=hubs)
            for o in (-1, 0, 1):
                j = here[i] + o
                steps.append(home[i] == (core.modulo(j, total[i])[0] if periodic else j))
            vc.hint(z3.Implies(near, z3.Or(steps)), hubs=hubs)
        hints = []

        def inside(r):
            """k is among the values of r, at its distance"""
            b = vc.fresh_expr(z3.BoolSort(), 'inside')
            vc.fact(b == z3.And(r.seq.member(k), lift(r.seq.at(k)) == d))
            cell = r.seq.cell
            c = z3.Implies(z3.And(other, *[a == lift(x) for a, x in zip(home, cell)]), b)
            if vc.hint(c, hubs=[other, near, d, lift(w.cut), k, st.flat.n]):
                hints.append(c)
            return b

        vc.prove('every node closer than the cutoff is reported', z3.Implies(z3.And(near, other), z3.Or([inside(r) for r in res])), using=vc.integer_facts() + hints)
        vc.prove('only distances of stored positions are reported', z3.And([z3.Implies(r.seq.member(k), z3.And(lift(r.seq.at(k)) == d, other)) for r in res]))
        pairs = [z3.Not(z3.And(a.seq.member(k), b.seq.member(k))) for n, a in enumerate(res) for b in res[:n]]
        vc.prove('every stored position is reported at most once', z3.And(pairs))
        vc.prove('nothing is stored by a lookup', z3.BoolVal(not st.cells._values_flat.new and not any(getattr(c, 'new', []) for c in st.cells._cells.cells.values())))

    return check


def insert(dim, attr, periodic):
    """Adding a position keeps the invariant."""

    def check(vc):
        w = World(vc, dim, periodic=periodic)
        st = State(vc, w, attr)
        grid = st.cells._cells
        if attr == 'nodes':
            new = w.node('new')
            call(vc, st.cont.add_result, new)
            value, pos = new, new.pos
        else:
            pos = w.position('new')
            value = pos
            call(vc, st.cont.set_refined, value)
        flat = st.cells._values_flat
        vc.prove('the new value comes last', z3.BoolVal(isinstance(flat, Stored) and len(flat.new) == 1 and flat.new[0] is value and flat.seq is st.flat))
        touched = [(key, cell) for key, cell in grid.cells.items() if isinstance(cell, shims.Cell) and cell.new]
        ok = len(touched) == 1 and len(touched[0][1].new) == 1 and touched[0][1].new[0] is value
        vc.prove('it is added to one cell', z3.BoolVal(ok))
        if ok:
            vc.prove('which is the cell of its position', z3.And([lift(a) == lift(b) for a, b in zip(touched[0][0], st.home(pos))]))

    return check


_DIST = ['contract of CoordinateSystem.distance as proved in C04']
for _dim in (1, 2, 3, 4):
    for _per in (False, True):
        _tag = '{}d_{}'.format(_dim, 'periodic' if _per else 'open')
        _scope = 'dimension {}, any number of stored positions'.format(_dim)
        for _which in ('nodes', 'all', 'refined'):
            if _dim == 4 and (_per or _which != 'refined'):
                continue
            spec('C07', 'C08', name='any_number_{}_{}'.format(_which, _tag), functions=FUNS, seconds=100 if _dim < 4 else 900, tier='thorough' if _dim > 3 or _dim == 3 and (_per or _which != 'nodes') else None, scope=_scope,
                 trusted=_DIST)(any_number(_dim, _which, _per))
        for _attr in ('nodes', 'refined_results'):
            spec('C07', 'C08', name='insert_{}_{}'.format(_attr, _tag), functions=FUNS, seconds=60, scope=_scope)(insert(_dim, _attr, _per))
for _dim in (4, 5):
    spec('C07', 'C08', name='any_number_refined_{}d_inner'.format(_dim), functions=FUNS, seconds=100 if _dim < 5 else 400, tier='thorough' if _dim > 4 else None, scope='dimension {}, any number of stored positions, cells which are not at the border'.format(_dim),
         trusted=_DIST)(any_number(_dim, 'refined', False, inner=True))
