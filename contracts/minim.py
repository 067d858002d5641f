"""
C13, C14: the Nelder-Mead minimisation; C15: the fake potential.

Two layers: runs of a few iterations with an arbitrary function, start and
settings, and the invariant of the loop (any number of iterations).
"""
import types

import z3

from pyvc import core, load, seq, shims
from pyvc.core import S, lift, to_real
from pyvc.shims import Arr
from pyvc.seq import Spread
from . import spec
from .coord import call

MOD = 'nodefinder.search._minimization._nelder_mead'
RUNMOD = 'nodefinder.search._minimization._run'
RESMOD = 'nodefinder.search.result._minimization'
FUNS = [MOD + '.' + n for n in ('root_nelder_mead', 'wrap_function')]
TRUST = ['contract of numpy.argsort: some permutation which sorts', 'contract of asyncio.gather: the results in the order of the arguments',
         'contract of _get_fprime_estimate as proved in fprime_estimate']


def drive(coro):
    """Run a coroutine alone: whenever it waits, it goes on."""
    try:
        for _ in range(10000):
            coro.send(None)
    except StopIteration as exc:
        return exc.value
    raise core.Unsupported('the coroutine waits forever')


class Pause:
    """Waiting for something."""

    def __await__(self):
        yield


class Task:
    """A task which runs when it is waited for."""

    def __init__(self, coro):
        self.coro, self.result_ = coro, None

    def __await__(self):
        if self.coro is not None:
            coro, self.coro = self.coro, None
            self.result_ = yield from coro.__await__()
        return self.result_


async def waited(x):
    return await x


def asyncio_stub(both_orders=False):
    mod = types.ModuleType('asyncio')

    async def gather(*coros, return_exceptions=False):
        if return_exceptions:
            raise core.Unsupported('return_exceptions')
        # all of them start, and go on in another order
        vc = core.cur()
        runs = [waited(c) for c in coros]
        res = [None] * len(runs)
        left = list(range(len(runs)))
        backwards = None
        while left:
            for k in list(left):
                try:
                    runs[k].send(None)
                except StopIteration as exc:
                    res[k] = exc.value
                    left.remove(k)
            if backwards is None:
                backwards = both_orders and len(left) > 1 and vc.choose('backwards')
            if backwards:
                left.reverse()
                backwards = False
        return res

    async def sleep(delay=0, result=None):
        await Pause()
        return result

    mod.gather, mod.sleep = gather, sleep
    mod.create_task = mod.ensure_future = Task

    def missing(name):
        raise core.Unsupported('asyncio.{}'.format(name))

    mod.__getattr__ = missing
    return mod


class Function:
    """An arbitrary function of N numbers; calls are recorded."""

    def __init__(self, vc, n):
        self.vc, self.n = vc, n
        self.f = z3.Function('f', *([z3.RealSort()] * (n + 1)))
        self.calls = []

    def at(self, x):
        return self.f(*[to_real(lift(c)) for c in x])

    async def __call__(self, x):
        if not isinstance(x, (Arr, tuple, list)) or len(x) != self.n:
            raise core.Unsupported('evaluation at something else')
        x = [to_real(lift(c)) for c in x]
        self.calls.append(x)
        await Pause()
        return S(self.f(*x))


def estimate_stub(vc, mod, n):
    if not hasattr(mod, '_get_fprime_estimate'):
        raise core.Unsupported('no _get_fprime_estimate')
    fp = z3.Function('fprime', *([z3.RealSort()] * (n * (n + 1) + 2)))

    def est(sim, fval):
        if not isinstance(sim, Arr) or sim.shape != (n + 1, n):
            raise core.Unsupported('estimate for something else')
        est.used = est.used or not est.by_spec
        return S(fp(*([to_real(lift(x)) for x in sim.a.reshape(-1)] + [to_real(lift(fval))])))

    est.used = est.by_spec = False
    mod._get_fprime_estimate = est
    return est


def eq_rows(a, b):
    return z3.And([to_real(lift(x)) == to_real(lift(y)) for x, y in zip(a, b)])


def z3max(items):
    m = items[0]
    for x in items[1:]:
        m = z3.If(x > m, x, m)
    return m


def absdiff(a, b):
    return [to_real(lift(a)) - to_real(lift(b)), to_real(lift(b)) - to_real(lift(a))]


def at_most(diffs, tol):
    if isinstance(tol, float) and tol == float('inf'):
        return z3.BoolVal(True)
    return z3.And([d <= to_real(lift(tol)) for d in diffs])


class Case:
    def __init__(self, vc, n, cutoff, maxiter='symbolic', maxfev='symbolic', inf=True, both_orders=False):
        self.vc, self.n = vc, n
        self.loader = load.Loader(stubs={'asyncio': asyncio_stub(both_orders)})
        self.mod = self.loader.load(MOD)
        self.nm = self.loader.get(MOD, 'root_nelder_mead')
        self.est = estimate_stub(vc, self.mod, n)
        self.func = Function(vc, n)
        self.start = Arr([[vc.real('x') for _ in range(n)] for _ in range(n + 1)])
        self.rows = [[self.start.a[k, i] for i in range(n)] for k in range(n + 1)]
        self.xtol = vc.real('xtol')
        self.ftol = float('inf') if inf and vc.choose('inf') else vc.real('ftol')
        for t in (self.xtol, self.ftol):
            if isinstance(t, S):
                vc.assume(t >= 0)
        self.cutoff = vc.real('fprime_cutoff') if cutoff else None
        if cutoff:
            vc.assume(self.cutoff > 0)
        self.maxiter = vc.int('maxiter', low=0) if maxiter == 'symbolic' else maxiter
        self.maxfev = vc.int('maxfev', low=0) if maxfev == 'symbolic' else maxfev
        self.options = (isinstance(self.ftol, float), )
        self.num_facts = len(vc.facts)
        self.lim_iter = lift(self.maxiter) if self.maxiter is not None else z3.IntVal(200 * n)
        self.lim_fev = lift(self.maxfev) if self.maxfev is not None else z3.IntVal(200 * n)

    def run(self, keep=None):
        kw = {} if keep is None else dict(keep_history=keep)
        if self.cutoff is not None or not keep:
            kw['fprime_cutoff'] = self.cutoff
        if self.maxiter is not None:
            kw['maxiter'] = self.maxiter
        if self.maxfev is not None:
            kw['maxfev'] = self.maxfev
        return call(self.vc, lambda: drive(self.nm(self.func, initial_simplex=self.start, xtol=self.xtol, ftol=self.ftol, **kw)))

    # -- specification
    def converged(self, sim, fun):
        dx = [d for row in sim[1:] for x, y in zip(row, sim[0]) for d in absdiff(x, y)]
        df = [d for v in fun[1:] for d in absdiff(v, fun[0])]
        return z3.And(at_most(dx, self.xtol), at_most(df, self.ftol))

    def exceeded(self, sim, f0):
        if self.cutoff is None:
            return z3.BoolVal(False)
        if not self.est.used:
            # unknown here, if the code does not use it (on this path)
            self.vc.abstract = self.vc.abstract or 'the estimate is calculated in another way'
        self.est.by_spec = True
        try:
            return lift(self.est(sim=Arr(sim) if not isinstance(sim, Arr) else sim, fval=f0)) > to_real(lift(self.cutoff))
        finally:
            self.est.by_spec = False

    def values(self, sim):
        return [self.func.at(row) for row in sim]

    def check_status(self, res, sim, fun, fev, iters):
        """sim, fun: the final simplex"""
        vc = self.vc
        used_fev, used_iter = fev >= self.lim_fev, iters >= self.lim_iter
        over = self.exceeded(sim, fun[0])
        good = z3.And(self.converged(sim, fun), z3.Not(used_fev), z3.Not(used_iter), z3.Not(over))
        success = core.truth(S(lift(res.success)))
        status = lift(res.status)
        vc.prove('successful exactly if the tolerances are met within the budgets and the cutoff', success == good)
        vc.prove('the status is zero exactly if it was successful', (status == 0) == success)
        vc.prove('otherwise the status names a budget or cutoff that stopped it', z3.And(
            z3.Implies(z3.Not(success), z3.Or(status == 1, status == 2, status == 3)), z3.Implies(status == 1, used_fev), z3.Implies(status == 2, used_iter), z3.Implies(status == 3, over)))
        vc.prove('there is a message', z3.BoolVal(isinstance(res.message, str) and bool(res.message)))


def few_iterations(n, k, cutoff, props):

    def check(vc):
        c = Case(vc, n, cutoff, maxiter=k, inf=n == 1)
        keep = vc.choose('keep')
        res = c.run(keep)
        fev = len(c.func.calls)
        sims = [s for s in res.simplex_history]
        pos, val = [to_real(lift(x)) for x in res.pos], to_real(lift(res.value))
        final = Arr(sims[-1].a.copy())
        rows = [list(r) for r in final.a]
        fvals = c.values(rows)
        if 'C13' in props:
            vc.prove('the position was evaluated', z3.Or([z3.And([a == b for a, b in zip(pos, x)]) for x in c.func.calls]))
            vc.prove('the value is the value of the function there', val == c.func.at(pos))
            vc.prove('no vertex of the final simplex has a lower value', z3.And([val <= v for v in fvals]))
            vc.prove('the value is not above those of the initial simplex', z3.And([val <= c.func.at(r) for r in c.rows]))
            vc.prove('the number of evaluations is right', lift(res.num_fev) == fev)
        if 'C14' in props:
            iters = lift(res.num_iter)
            vc.prove('the position is the best vertex of the final simplex', eq_rows(pos, rows[0]))
            c.check_status(res, final, fvals, z3.IntVal(fev), iters)
            vc.prove('one step costs at most dimension plus two evaluations', fev <= (n + 1) + (iters - 1) * (n + 2))
            vc.prove('no step once the evaluations are used up', z3.Or(iters == 1, fev < c.lim_fev + n + 2))
            vc.prove('no step once the iterations are used up', z3.Or(iters == 1, iters <= c.lim_iter))
            if keep:
                vc.prove('the history has one simplex and one list of values for every iteration', z3.And(iters == len(sims), z3.BoolVal(len(res.fun_simplex_history) == len(sims))))
                if len(res.fun_simplex_history) == len(sims):
                    funs = [list(f) for f in res.fun_simplex_history]
                    for s, f in zip(sims, funs):
                        vc.prove('values match vertices', z3.And([to_real(lift(v)) == c.func.at(list(r)) for v, r in zip(f, s.a)]))
                        vc.prove('values are sorted', z3.And([to_real(lift(a)) <= to_real(lift(b)) for a, b in zip(f, f[1:])]))
                    for f, g in zip(funs, funs[1:]):
                        vc.prove('the lowest value never increases', to_real(lift(g[0])) <= to_real(lift(f[0])))
                    for s, f in list(zip(sims, funs))[:-1]:
                        vc.prove('no step once the tolerances are met', z3.Not(c.converged([list(r) for r in s.a], f)))
                        vc.prove('no step once the cutoff is exceeded', z3.Not(c.exceeded(s, f[0])))
                vc.prove('the history starts with the initial simplex', z3.And([z3.Or([eq_rows(r, list(x)) for x in sims[0].a]) for r in c.rows]))
            else:
                vc.prove('only the final simplex is kept', z3.BoolVal(len(sims) == 1))

    return check


for _n, _k, _cut in ((1, 1, False), (1, 2, True), (1, 3, False), (2, 2, True), (2, 2, False)):
    for _props in (('C13', ), ('C14', )):
        spec(*_props, name='{}d_{}_iterations{}'.format(_n, _k, '_cutoff' if _cut else ''), functions=FUNS, seconds=120, max_paths=20000, trusted=TRUST,
             scope='dimension {}, at most {} iterations, any function and settings'.format(_n, _k))(few_iterations(_n, _k, _cut, _props))


# ------------------------------------------------------------- any iteration
class Earlier:
    """The entries of the history before the last one."""
    _vc_symbolic = True
    _vc_many = True


LOCALS = {'func', 'fcalls', 'sim', 'fsim', 'iterations', 'simplex_history', 'maxfun', 'maxiter', 'N'}


class Loop:
    """Contract of the loop of root_nelder_mead."""

    def __init__(self, case, keep, props):
        self.c, self.keep, self.props = case, keep, props

    def state(self, loc):
        if not LOCALS <= set(loc) or self.keep and 'fun_simplex_history' not in loc:
            raise core.Unsupported('different local variables')
        c = self.c
        if not isinstance(loc['sim'], Arr) or loc['sim'].shape != (c.n + 1, c.n) or not isinstance(loc['fsim'], Arr):
            raise core.Unsupported('different representation of the simplex')
        return loc

    def lists(self, loc):
        return [loc['simplex_history']] + ([loc['fun_simplex_history']] if self.keep else [])

    def check(self, loc, evaluated, calls, iters, where):
        """the invariant"""
        vc, c = self.c.vc, self.c
        sim, fsim = loc['sim'], loc['fsim']
        rows = [list(r) for r in sim.a]
        fs = [to_real(lift(x)) for x in fsim.a]
        hist = self.lists(loc)
        last = hist[0][-1]
        if not isinstance(last, Arr):
            raise core.Unsupported('different representation of the history')
        if 'C13' in self.props:
            vc.prove('every vertex was evaluated ({})'.format(where), z3.And([evaluated(r) for r in rows]))
            vc.prove('the values are those of the vertices ({})'.format(where), z3.And([v == c.func.at(r) for v, r in zip(fs, rows)]))
            vc.prove('the vertices are sorted by value ({})'.format(where), z3.And([a <= b for a, b in zip(fs, fs[1:])]))
            vc.prove('the calls are counted ({})'.format(where), lift(loc['fcalls'][0]) == calls)
        if 'C13' in self.props or 'C15' in self.props:
            vc.prove('the last entry of the history is the simplex ({})'.format(where), eq_rows(last.a.reshape(-1), sim.a.reshape(-1)))
        if 'C15' in self.props:
            vc.prove('its best vertex is the first one ({})'.format(where), z3.And([c.func.at(rows[0]) <= c.func.at(r) for r in rows]))
        if 'C14' in self.props:
            vc.prove('the iterations are counted ({})'.format(where), lift(loc['iterations']) == iters)
            if self.keep:
                fl = hist[1][-1]
                vc.prove('the last entries of the history are the simplex and its values ({})'.format(where), z3.And(eq_rows(last.a.reshape(-1), sim.a.reshape(-1)), eq_rows(fl.a, fsim.a)))
                vc.prove('the values match and are sorted ({})'.format(where), z3.And([a <= b for a, b in zip(fs, fs[1:])] + [v == c.func.at(r) for v, r in zip(fs, rows)]))
        return rows, fs

    def enter(self, vc, loc, names, _seq):
        c = self.c
        vc.coupled = 'local variables of root_nelder_mead'
        self.state(loc)
        n = c.n
        calls = [list(x) for x in c.func.calls]
        rows, fs = self.check(loc, lambda r: z3.Or([eq_rows(r, x) for x in calls]), z3.IntVal(len(calls)), z3.IntVal(1), 'initially')
        hist = self.lists(loc)
        if 'C14' in self.props:
            vc.prove('at first there is one entry in the history', z3.BoolVal(all(len(h) == 1 for h in hist)))
            vc.prove('the history starts with the initial simplex', z3.And([z3.Or([eq_rows(r, x) for x in rows]) for r in c.rows]))
        vc.prove('the lowest initial value', z3.And([fs[0] <= c.func.at(r) for r in c.rows]))
        # an arbitrary later iteration, of which nothing else is known
        if not vc.once(('loop', self.keep) + c.options):
            raise core.PathEnd()
        vc.forget(c.num_facts)
        self.lowest = vc.real('lowest').e
        vc.fact(*[self.lowest <= c.func.at(r) for r in c.rows])
        self.was = z3.Function('evaluated', *([z3.RealSort()] * n + [z3.BoolSort()]))
        sim = Arr([[vc.real('sim') for _ in range(n)] for _ in range(n + 1)])
        rows = [list(r) for r in sim.a]
        fsim = Arr([S(c.func.at(r)) for r in rows])
        for r in rows:
            vc.fact(self.was(*[lift(x) for x in r]))
        for a, b in zip(fsim.a, fsim.a[1:]):
            vc.fact(lift(a) <= lift(b))
        vc.fact(lift(fsim.a[0]) <= self.lowest)
        self.calls = vc.int('calls', low=n + 1)
        self.iters = vc.int('iterations', low=1)
        # of the guard and of single steps, proved below
        vc.fact(z3.Or(self.iters.e == 1, self.iters.e <= c.lim_iter))
        vc.fact(z3.Or(self.iters.e == 1, self.calls.e < c.lim_fev + n + 2))
        loc['fcalls'][0] = self.calls
        c.func.calls.clear()
        self.marks = []
        for h, x in zip(hist, (sim, fsim)):
            m = Earlier()
            self.marks.append(m)
            h[:] = ([m] if self.keep else []) + [x.copy()]
        self.old = (rows, [lift(x) for x in fsim.a], sim.copy())
        res = {name: None for name in ()}
        res['sim'], res['fsim'], res['iterations'] = sim, fsim, self.iters
        return res

    def preserved(self, vc, loc):
        c = self.c
        self.state(loc)
        new = [list(x) for x in c.func.calls]
        num = len(new)
        evaluated = lambda r: z3.Or(self.was(*[to_real(lift(x)) for x in r]), *[eq_rows(r, x) for x in new])
        rows, fs = self.check(loc, evaluated, self.calls.e + num, self.iters.e + 1, 'after every step')
        orows, ofs, osim = self.old
        hist = self.lists(loc)
        if 'C13' in self.props:
            vc.prove('the lowest value never increases', fs[0] <= ofs[0])
        if 'C14' in self.props:
            vc.prove('the lowest value never increases', fs[0] <= ofs[0])
            vc.prove('one step costs at most dimension plus two evaluations', z3.BoolVal(num <= c.n + 2))
            vc.prove('no step once the evaluations are used up', self.calls.e < c.lim_fev)
            vc.prove('no step once the iterations are used up', self.iters.e < c.lim_iter)
            vc.prove('no step once the tolerances are met', z3.Not(c.converged(orows, ofs)))
            vc.prove('no step once the cutoff is exceeded', z3.Not(c.exceeded(osim, S(ofs[0]))))
            if self.keep:
                ok = all(len(h) == 3 and h[0] is m for h, m in zip(hist, self.marks))
                vc.prove('every step adds one entry to the history and leaves the others', z3.BoolVal(ok))
                if ok:
                    vc.prove('the earlier entries of the history stay', z3.And(eq_rows(hist[0][1].a.reshape(-1), osim.a.reshape(-1)), eq_rows(hist[1][1].a, ofs)))
            else:
                vc.prove('only the last simplex is kept', z3.BoolVal(len(hist[0]) == 1))


def any_iteration(n, cutoff, default, props):

    def check(vc):
        c = Case(vc, n, cutoff, maxiter=None if default else 'symbolic', maxfev=None if default else 'symbolic', both_orders=True)
        keep = vc.choose('keep')
        loop = Loop(c, keep, props)
        vc.loops[lambda lid, _loc, _names, seq: loop if seq is None and lid.startswith('root_nelder_mead#') and not hasattr(loop, 'iters') else None] = None
        c.mod.np = HistNP(c.mod.np)
        res = c.run(keep)
        if not hasattr(loop, 'iters'):
            raise core.Unsupported('no loop')
        # what is left after the loop
        vc.prove('nothing is evaluated after the last step', z3.BoolVal(not c.func.calls))
        pos, val = [to_real(lift(x)) for x in res.pos], to_real(lift(res.value))
        orows, ofs, osim = loop.old
        if 'C13' in props:
            vc.prove('the position was evaluated', loop.was(*pos))
            vc.prove('the value is the value of the function there', val == c.func.at(pos))
            vc.prove('no vertex of the final simplex has a lower value', z3.And([val <= c.func.at(list(r)) for r in history_of(res.simplex_history)[-1].a]))
            vc.prove('the value is not above those of the initial simplex', z3.And([val <= c.func.at(r) for r in c.rows]))
            vc.prove('the number of evaluations is right', lift(res.num_fev) == loop.calls.e)
        if 'C15' in props:
            end = [list(r) for r in history_of(res.simplex_history)[-1].a]
            vc.prove('the second minimization starts around the best vertex: the final simplex is the last of the history, whether all of it is kept or not', eq_rows([x for r in end for x in r], osim.a.reshape(-1)))
            vc.prove('the reported position is its first vertex', eq_rows(pos, end[0]))
        if 'C14' in props:
            vc.prove('the number of iterations is right', lift(res.num_iter) == loop.iters.e)
            c.check_status(res, osim, ofs, loop.calls.e, loop.iters.e)
            hist = [history_of(res.simplex_history)] + ([history_of(res.fun_simplex_history)] if keep else [])
            vc.prove('the history is given as recorded', z3.BoolVal(all(len(h) == (2 if keep else 1) for h in hist) and (not keep or all(h[0] is m for h, m in zip(hist, loop.marks)))))
            vc.prove('its last simplex is the final one', eq_rows(hist[0][-1].a.reshape(-1), osim.a.reshape(-1)))
            if keep:
                vc.prove('its last values are the final ones', eq_rows(hist[1][-1].a, ofs))

    return check


class History:
    """Array of the history."""
    _vc_symbolic = True

    def __init__(self, items):
        self.items = items


class HistNP:
    """numpy, with arrays of a history of unknown length"""

    def __init__(self, np):
        self._np = np

    def __getattr__(self, name):
        return getattr(self._np, name)

    def array(self, data, *args, **kw):
        if isinstance(data, list) and data and isinstance(data[0], Earlier):
            return History([data[0]] + [x.copy() for x in data[1:]])
        return self._np.array(data, *args, **kw)

    asarray = stack = array


def history_of(h):
    if isinstance(h, History):
        return h.items
    if isinstance(h, Arr):
        return [x for x in h]
    raise core.Unsupported('different representation of the history')


for _n in (1, 2, 3, 4, 5):
    for _cut, _def in ((False, False), (True, False), (False, True)):
        for _props in (('C13', ), ('C14', ), ('C15', )):
            if _props == ('C15', ) and (_cut or _def):
                continue
            spec(*(_props + (('C01', ) if 'C13' in _props and _n < 3 else ())), name='any_iteration_{}d{}{}'.format(_n, '_cutoff' if _cut else '', '_defaults' if _def else ''), functions=FUNS, seconds=120 if _n < 4 else 600, max_paths=20000, trusted=TRUST,
                 tier='thorough' if _n > 4 or _n == 3 and _cut != (_props == ('C14', )) or _n == 4 and (_cut != (_props == ('C14', )) or _def) else None,
                 scope='dimension {}, any number of iterations'.format(_n))(any_iteration(_n, _cut, _def, _props))


@spec('C14', functions=[MOD + '._get_fprime_estimate'], seconds=60, scope='dimension 1 and 2')
def fprime_estimate(vc):
    n = 1 + vc.pick(2, 'dim')
    fct = load.Loader(stubs={'asyncio': asyncio_stub()}).get(MOD, '_get_fprime_estimate')
    sim = Arr([[vc.real('x') for _ in range(n)] for _ in range(n + 1)])
    rows = [[lift(x) for x in r] for r in sim.a]
    vc.auto_lemmas = False
    sq = [z3.Sum([(a - b) * (a - b) for a, b in zip(r, s)]) for k, r in enumerate(rows) for s in rows[k + 1:]]
    for s in sq:
        vc.fact(s >= 0)
    longest = vc.real('longest')
    vc.fact(longest.e > 0, z3.Or([longest.e * longest.e == s for s in sq]), *[s <= longest.e * longest.e for s in sq])
    f = vc.real('value')
    res = call(vc, fct, sim=sim, fval=f)
    vc.prove('it is the value divided by the length of the longest edge', lift(res) * longest.e == lift(f))


# ------------------------------------------------------------ fake potential
class Stage:
    """What the (stubbed) minimisation was called with and has returned."""


def stages(vc, mod, n, keep):
    if not hasattr(mod, 'root_nelder_mead'):
        raise core.Unsupported('no root_nelder_mead')
    done = []

    async def root_nelder_mead(func, *, initial_simplex, **kw):
        st = Stage()
        st.func, st.start, st.kw = func, initial_simplex, dict(kw)
        k = len(done)
        name = 'r{}'.format(k)
        st.res = types.SimpleNamespace(
            pos=Arr([vc.real(name) for _ in range(n)]), value=vc.real(name), success=vc.bool(name), status=vc.int(name), message='message {}'.format(k), num_iter=vc.int(name), num_fev=vc.int(name),
            simplex_history=Arr([[[vc.real(name) for _ in range(n)] for _ in range(n + 1)] for _ in range(2 - k if keep else 1)])
        )
        if keep:
            st.res.fun_simplex_history = Arr([[vc.real(name) for _ in range(n + 1)] for _ in range(2 - k)])
        st.was = {key: val.copy() if isinstance(val, Arr) else val for key, val in vars(st.res).items()}
        x = Arr([vc.real('x') for _ in range(n)])
        st.point = x.copy()
        st.val = await func(x)
        done.append(st)
        return st.res

    mod.root_nelder_mead = root_nelder_mead
    return done


def arrays_equal(a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.shape != b.shape:
        return z3.BoolVal(False)
    return eq_rows(a.a.reshape(-1), b.a.reshape(-1))


def two_stages(n, with_potential):

    def check(vc):
        loader = load.Loader(stubs={'asyncio': asyncio_stub(), MOD: types.SimpleNamespace(root_nelder_mead=None)})
        mod = loader.load(RUNMOD)
        run = loader.get(RUNMOD, 'run_minimization')
        keep = vc.choose('keep')
        done = stages(vc, mod, n, keep)
        gap = z3.Function('gap', *([z3.RealSort()] * (n + 1)))
        pot = z3.Function('potential', *([z3.RealSort()] * (n + 1)))

        async def func(x):
            return S(gap(*[to_real(lift(c)) for c in x]))

        def potential(x):
            return S(pot(*[to_real(lift(c)) for c in x]))

        start = Arr([[vc.real('s') for _ in range(n)] for _ in range(n + 1)])
        start0 = start.copy()
        kw = dict(xtol=vc.real('xtol'), ftol=vc.real('ftol'), keep_history=keep)
        if vc.choose('budgets'):
            kw.update(maxiter=vc.int('maxiter'), maxfev=vc.int('maxfev'), fprime_cutoff=vc.real('cutoff'))
        given = dict(kw)
        arg = types.MappingProxyType(kw) if vc.choose('readonly') else kw
        res = call(vc, lambda: drive(run(func, initial_simplex=start, fake_potential=potential if with_potential else None, nelder_mead_kwargs=arg)))
        vc.prove('the settings are not modified', z3.BoolVal(set(kw) == set(given) and all(kw[k] is given[k] for k in kw)))
        vc.prove('the number of minimizations', z3.BoolVal(len(done) == (2 if with_potential else 1)))
        if len(done) != (2 if with_potential else 1):
            return
        last = done[-1]
        g = lambda x: gap(*[to_real(lift(c)) for c in x])
        vc.prove('the last minimization runs on the gap alone', to_real(lift(last.val)) == g(last.point))
        vc.prove('the last minimization uses the given settings', z3.BoolVal(all(k in last.kw and last.kw[k] is given[k] for k in given)))
        vc.prove('the first minimization starts from the given simplex', arrays_equal(done[0].start, start0))
        for key in ('pos', 'value', 'success', 'status', 'message'):
            a, b = getattr(res, key), last.was[key]
            if key == 'pos':
                cond = arrays_equal(a, b)
            elif key == 'message':
                cond = z3.BoolVal(a == b)
            else:
                cond = lift(a) == lift(b) if isinstance(a, S) else z3.BoolVal(a is b)
            vc.prove('{} is that of the last minimization'.format(key), cond)
        hist = ['simplex_history'] + (['fun_simplex_history'] if keep else [])
        if with_potential:
            first = done[0]
            vc.prove('the first minimization runs on the gap and the potential', to_real(lift(first.val)) == g(first.point) + pot(*[lift(c) for c in first.point]))
            vc.prove('the first minimization has the given budgets and tolerance of the position', z3.BoolVal(
                all(first.kw.get(k) is given.get(k) for k in ('xtol', 'maxiter', 'maxfev', 'fprime_cutoff'))))
            final = [list(r) for r in first.was['simplex_history'].a[-1]]
            want = [[to_real(lift(final[0][i])) + (to_real(lift(r[i])) - to_real(lift(final[0][i]))) * z3.Q(3, 2) for i in range(n)] for r in final]
            got = last.start
            if isinstance(got, (list, tuple)):
                got = Arr(got)
            if not isinstance(got, Arr) or got.shape != (n + 1, n):
                raise core.Unsupported('start of the second minimization')
            vc.prove('the second one starts from the enlarged final simplex of the first', z3.And([to_real(lift(a)) == b for a, b in zip(got.a.reshape(-1), [x for r in want for x in r])]))
            for key in ('num_fev', 'num_iter'):
                vc.prove('{} is the sum of both'.format(key), lift(getattr(res, key)) == lift(first.was[key]) + lift(last.was[key]))
            for key in hist:
                both = Arr(shims.real_np.concatenate([first.was[key].a, last.was[key].a]))
                vc.prove('{} is that of the first followed by the second'.format(key), arrays_equal(getattr(res, key), both))
        else:
            for key in ('num_fev', 'num_iter'):
                vc.prove('{} is that of the minimization'.format(key), lift(getattr(res, key)) == lift(last.was[key]))
            for key in hist:
                vc.prove('{} is that of the minimization'.format(key), arrays_equal(getattr(res, key), last.was[key]))

    return check


for _n in (1, 2, 3):
    for _pot in (True, False):
        spec('C15', name='{}_{}d'.format('two_stages' if _pot else 'one_stage', _n), functions=[RUNMOD + '.run_minimization', RUNMOD + '.add_fake_potential', RESMOD + '.JoinedMinimizationResult'], seconds=60,
             scope='dimension {}, any results of the two minimizations'.format(_n), trusted=['contract of root_nelder_mead as in C13 and C14 (any result)'])(two_stages(_n, _pot))
