"""
C16, C17, C20, C21: the controller of the search, against the contracts of the
result container (C07 - C10), the minimisation (C13 - C15) and io (C22).

The event loop, the file system and the random outcome of minimisations are
nondeterministic: every schedule and every fault is a path.
"""
import inspect
import types

import asyncio as real_asyncio
import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.shims import Arr
from . import spec
from .coord import call

MOD = 'nodefinder.search._controller'
CTL = MOD + '.Controller.'
TRUST = ['contract of the result container as in C07 - C09', 'contract of run_minimization as in C13 - C15 (any result, after any delay, or an exception)',
         'contract of asyncio: tasks run between awaits only, in any order of completion', 'contract of fsc.async_tools.PeriodicTask: calls the function, last at the end']


class GapError(TimeoutError, ConnectionError, InterruptedError, ValueError, KeyError, IndexError, ZeroDivisionError, FloatingPointError, OverflowError, RuntimeError):
    """An exception of any kind: a handler for one of them catches it."""


Cancelled = real_asyncio.CancelledError


# ---------------------------------------------------------------- event loop
class Wait:
    def __init__(self, what):
        self.what = what

    def __await__(self):
        yield self.what


class OwnError(ValueError):
    """An error which asyncio raises for the way it is used."""


class Task:
    def __init__(self, env, coro):
        if not inspect.iscoroutine(coro):
            raise core.Unsupported('a task of something else than a coroutine')
        self.env, self.coro = env, coro
        self.state, self.exc, self.res, self.started = 'ready', None, None, False
        self.retrieved = False
        self.callbacks = []
        env.tasks.append(self)

    def step(self):
        self.started = True
        try:
            self.coro.send(None)
            self.state = 'waiting'
        except StopIteration as exc:
            self.state, self.res = 'done', exc.value
        except BaseException as exc:  # pylint: disable=broad-except
            if core.exceptional(exc) or not isinstance(exc, (GapError, Cancelled)):
                raise
            self.state, self.exc = 'done', exc
        if self.state == 'done':
            for f in self.callbacks:
                f(self)

    def done(self):
        return self.state == 'done'

    def cancelled(self):
        return isinstance(self.exc, Cancelled)

    def exception(self):
        if self.state != 'done':
            raise core.Unsupported('exception of a task which is not done')
        self.retrieved = True
        if self.cancelled():
            raise self.exc
        return self.exc

    def result(self):
        if self.state != 'done':
            raise core.Unsupported('result of a task which is not done')
        self.retrieved = True
        if self.exc is not None:
            raise self.exc
        return self.res

    def add_done_callback(self, f):
        self.callbacks.append(f)

    def cancel(self, msg=None):
        if self.state == 'done':
            return False
        raise core.Unsupported('cancelling a task')

    def __await__(self):
        while not self.done():
            yield 'task'
        return self.result()


class Env:
    """Everything around the controller."""

    def __init__(self, vc, limit, idle=1):
        self.vc, self.limit = vc, limit
        self.tasks = []
        self.running = []  # minimizations in progress
        self.runs = []  # all of them
        self.idle = idle
        self.futile = 0
        self.saves = []
        self.outcome = lambda run: types.SimpleNamespace(pos=numpy.array([50. + len(self.runs)]), node=False)
        self.fails = lambda run: False
        self.on_save = None
        self.result = None

    # -- asyncio
    def asyncio(self):
        env = self
        mod = types.ModuleType('asyncio')

        def task(coro, **_kw):
            return coro if isinstance(coro, Task) else Task(env, coro)

        async def sleep(delay=0, result=None):
            await Wait('sleep')
            return result

        async def gather(*futs, return_exceptions=False):
            futs = [task(f) for f in futs]
            while True:
                if not return_exceptions:
                    for f in futs:
                        if f.done() and f.exc is not None:
                            raise f.exc
                if all(f.done() for f in futs):
                    return [f.exc if f.exc is not None else f.res for f in futs]
                await Wait('gather')

        async def wait(futs, timeout=None, return_when='ALL_COMPLETED'):
            futs = list(futs)
            if not futs:
                raise OwnError('Set of Tasks/Futures is empty.')
            if not all(isinstance(f, Task) for f in futs):
                raise core.Unsupported('asyncio.wait')
            timed = False
            while True:
                done = {f for f in futs if f.done()}
                if timeout is not None and timed or len(done) == len(futs) or done and return_when == 'FIRST_COMPLETED' or any(f.exc for f in done) and return_when == 'FIRST_EXCEPTION':
                    return done, set(futs) - done
                timed = True
                await Wait('wait')

        class Loop:
            create_task = staticmethod(task)

        mod.CancelledError = Cancelled
        mod.TimeoutError = TimeoutError
        mod.ensure_future = mod.create_task = task
        mod.sleep, mod.gather, mod.wait = sleep, gather, wait
        mod.ALL_COMPLETED, mod.FIRST_COMPLETED, mod.FIRST_EXCEPTION = 'ALL_COMPLETED', 'FIRST_COMPLETED', 'FIRST_EXCEPTION'
        mod.get_event_loop = mod.get_running_loop = lambda: Loop

        def missing(name):
            raise core.Unsupported('asyncio.{}'.format(name))

        mod.__getattr__ = missing
        return mod

    def async_tools(self):
        env = self

        class PeriodicTask:
            def __init__(self, task_func, *, loop=None, delay=1., run_on_exit=True):
                self.f, self.last = task_func, run_on_exit

            async def __aenter__(self):
                env.on_save = self.f

            async def __aexit__(self, *exc):
                env.on_save = None
                if self.last:
                    self.f()

        def wrap_to_coroutine(f):
            async def g(*args, **kw):
                return f(*args, **kw)

            return g

        return shims.module('fsc.async_tools', PeriodicTask=PeriodicTask, wrap_to_coroutine=wrap_to_coroutine)

    def minimization(self):
        env = self

        async def run_minimization(func, *, initial_simplex, fake_potential=None, nelder_mead_kwargs=types.MappingProxyType({})):
            run = types.SimpleNamespace(func=func, simplex=initial_simplex, potential=fake_potential, kwargs=nelder_mead_kwargs, number=len(env.runs), done=False)
            env.runs.append(run)
            env.running.append(run)
            env.vc.prove('never more than the configured number of minimizations in progress', z3.IntVal(len(env.running)) <= lift(env.limit))
            await Wait('minimization')
            env.running.remove(run)
            run.done = True
            bad = env.fails(run)
            if bad:
                run.exc = (Cancelled if bad == 'cancelled' else GapError)(run.number)
                raise run.exc
            run.result = env.outcome(run)
            return run.result

        return shims.module('nodefinder.search._minimization', run_minimization=run_minimization)

    def tick(self, what):
        """Something else runs until the search continues."""
        vc = self.vc
        fresh = [t for t in self.tasks if not t.started]
        for t in fresh:
            t.step()
        waiting = [t for t in self.tasks if t.state == 'waiting']
        if not waiting:
            if not fresh:
                self.futile += 1
                if self.futile > 2:
                    vc.fail('it never waits for nothing')
                    raise core.PathEnd()
            return
        must = True
        if self.idle and vc.choose('idle'):
            self.idle -= 1
            return
        while waiting:
            k = vc.pick(len(waiting) + (0 if must else 1), 'complete')
            if k == len(waiting):
                break
            must = False
            waiting.pop(k).step()

    def drive(self, coro):
        """Run to the end; gives the exception, or None."""
        try:
            while True:
                what = coro.send(None)
                if self.on_save is not None and self.periodic and self.vc.choose('save'):
                    self.periodic -= 1
                    self.on_save()
                self.tick(what)
        except StopIteration:
            return None
        except OwnError:
            self.vc.fail('the search ends without an error of its own')
            raise core.PathEnd()
        except (GapError, Cancelled) as exc:
            return exc

    periodic = 0


# -------------------------------------------------------------------- result
def key(pos):
    return tuple(float(x) for x in pos)


class Container:
    """The result container, with arbitrary distances between its positions."""
    env = None

    def __init__(self, *, coordinate_system, minimization_results=(), gap_threshold, dist_cutoff, refined_results=()):
        self.coordinate_system, self.gap_threshold, self.dist_cutoff = coordinate_system, gap_threshold, dist_cutoff
        self.given = minimization_results
        self.added, self.node_list, self.refined = [], [], []
        self.log = []
        self.distances = {}
        self.needs_saving = True
        for r in minimization_results:
            self.add_result(r)
        for r in refined_results:
            self.set_refined(r)
        self.env.result = self
        self.log.clear()

    def distance(self, a, b):
        a, b = sorted([key(a), key(b)])
        if a == b:
            return 0.
        if (a, b) not in self.distances:
            d = core.cur().real('distance')
            core.cur().assume(d >= 0)
            self.distances[a, b] = d
        return self.distances[a, b]

    def add_result(self, res):
        self.needs_saving = True
        self.added.append(res)
        self.log.append(('result', res))
        if res.node:
            self.node_list.append(res)
        return res.node

    def set_refined(self, pos):
        self.needs_saving = True
        self.refined.append(pos)
        self.log.append(('refined', key(pos)))

    @property
    def minimization_results(self):
        return [r for r in self.added if r.node] + [r for r in self.added if not r.node]

    @property
    def rejected_results(self):
        return [r for r in self.added if not r.node]

    @property
    def refined_results(self):
        return list(self.refined)

    def get_refined_neighbour_distance_iterator(self, pos):
        for p in list(self.refined):
            yield self.distance(pos, p)

    def get_neighbour_distance_iterator(self, pos):
        for r in list(self.node_list):
            if key(r.pos) != key(pos):
                yield self.distance(pos, r.pos)

    def get_all_neighbour_distances(self, pos):
        return list(self.get_neighbour_distance_iterator(pos))


def old_result(results, refined, **kw):
    """Result container of an earlier search, with other settings."""
    filtered = dict(nodes=[r for r in results if r.node], rejected_results=[r for r in results if not r.node]) if isinstance(results, (list, tuple)) else {}
    if isinstance(results, (list, tuple)):
        results = filtered['nodes'] + filtered['rejected_results']
    else:
        results, refined = (x if not isinstance(x, (list, tuple)) else list(x) for x in (results, refined))
    cs = types.SimpleNamespace(limits=numpy.array([[-500., 500.]] * 3), periodic=False)
    attrs = dict(filtered, minimization_results=results, refined_results=list(refined) if isinstance(refined, (list, tuple)) else refined, gap_threshold=0.1, dist_cutoff=1., coordinate_system=cs, needs_saving=False)
    return types.SimpleNamespace(**dict(attrs, **kw))


class Old:
    """An earlier state."""

    def __init__(self, simplices=(), positions=(), results=(), refined=()):
        self.simplex_queue = types.SimpleNamespace(objects=list(simplices))
        self.position_queue = types.SimpleNamespace(objects=list(positions))
        self.result = old_result(results, refined)


def node_at(*pos):
    return types.SimpleNamespace(pos=numpy.array(pos), node=True)


def loader_for(env, container=Container, **more):
    cont = type('SearchResultContainer', (container, ), {'env': env})
    stubs = {
        'asyncio': env.asyncio(),
        'fsc.async_tools': env.async_tools(),
        'nodefinder.search._minimization': env.minimization(),
        'nodefinder.io': shims.module('nodefinder.io'),
    }
    stubs.update(more)
    loader = load.Loader(stubs=stubs)
    state = loader.load('nodefinder.search.result._controller_state').ControllerState
    loader.stubs['nodefinder.search.result'] = shims.module('nodefinder.search.result', SearchResultContainer=cont, ControllerState=state)
    loader.stubs['nodefinder'] = shims.module('nodefinder', io=loader.stubs['nodefinder.io'])
    return loader


def controller(env, old, dim=1, loader=None, **kw):
    loader = loader or loader_for(env)
    cls = loader.get(MOD, 'Controller')
    args = dict(
        gap_fct=lambda x: 0., limits=[(0., 100.)] * dim, periodic=False, initial_state=old, save_file=None, load=False, load_quiet=True, initial_mesh_size=2, force_initial_mesh=False,
        gap_threshold=1e-3, feature_size=3., nelder_mead_kwargs={}, num_minimize_parallel=env.limit, refinement_stencil=None, use_fake_potential=False
    )
    args.update(kw)
    return call(env.vc, cls, **args)


def simplex(dim, x):
    return tuple(tuple(x + (0.125 if k == i + 1 else 0.) for i in range(dim)) for k in range(dim + 1))


def norm(s):
    return tuple(sorted(tuple(float(x) for x in v) for v in s))


FUNS = [CTL + n for n in ('__init__', 'create_state', 'run', 'create_tasks', 'schedule_minimization', 'run_simplex', 'process_result', '_check_pos_refinement', '_check_simplex', '_has_queued_positions')]


# ------------------------------------------------------- C16: whole searches
def finished(env, ctl, exc, expected, stencil=True):
    """obligations at the end of a search"""
    vc = env.vc
    state = ctl.state
    failed = [r.exc for r in env.runs if hasattr(r, 'exc')]
    vc.prove('an exception of the gap function is raised by the search', z3.BoolVal((exc is None) == (not failed) and (exc is None or any(exc is e for e in failed))))
    if exc is not None:
        return
    vc.prove('no simplex is left queued or running', z3.BoolVal(not list(state.simplex_queue.objects)))
    vc.prove('no minimization is still in progress', z3.BoolVal(not env.running and all(t.done() for t in env.tasks)))
    if stencil:
        vc.prove('no position is left to refine', z3.BoolVal(not list(state.position_queue.objects)))
    got = sorted(norm(r.simplex) for r in env.runs)
    vc.prove('each distinct starting simplex was minimized exactly once unless it was dropped', z3.BoolVal(got == sorted(set(norm(s) for s in expected))))
    vc.prove('every result enters the result container exactly once', z3.BoolVal(
        len(env.result.added) == len(env.runs) + len(env.initial) and all(any(r.result is a for a in env.result.added) for r in env.runs)))


def schedules(num, limit, with_stencil, failures):

    def check(vc):
        env = Env(vc, limit, idle=1 if num < 3 else 0)
        env.initial = []
        simplices = [simplex(1, 10. * k) for k in range(num)]
        left = [1 if with_stencil else 0, 1 if failures else 0]

        def outcome(run):
            node = bool(left[0] and vc.choose('node'))
            left[0] -= node
            return types.SimpleNamespace(pos=numpy.array([50. + run.number]), node=node)

        def fails(run):
            bad = bool(left[1] and vc.choose('fails'))
            left[1] -= bad
            return 'cancelled' if bad and (num == 1 or not with_stencil) and vc.choose('cancelled') else bad

        env.outcome, env.fails = outcome, fails
        stencil = numpy.array([[[0.25], [0.5]], [[-0.25], [-0.5]]]) if with_stencil else None
        # one simplex is given twice
        ctl = controller(env, Old(simplices + [tuple(reversed(simplices[0]))]), refinement_stencil=stencil, simplex_check_cutoff=5, save_file='')
        exc = env.drive(ctl.run())
        expected = list(simplices)
        for kind, val in env.result.log:
            if kind == 'refined':
                expected += [norm(s) for s in (numpy.array(val) + stencil)]
        vc.prove('a node is refined if there is a stencil', z3.BoolVal(sum(k == 'refined' for k, _ in env.result.log) == sum(1 for r in env.runs if getattr(getattr(r, 'result', None), 'node', False))) if exc is None else z3.BoolVal(True))
        finished(env, ctl, exc, expected)

    return check


for _num, _lim, _sten, _fail in ((1, 1, True, True), (2, 1, True, True), (2, 2, True, True), (3, 1, False, True), (3, 2, False, True), (3, 3, False, True), (3, 2, True, False), (2, 5, True, False)):
    spec('C16', name='schedules_{}_simplices_{}_parallel{}{}'.format(_num, _lim, '_refine' if _sten else '', '_fail' if _fail else ''), functions=FUNS, seconds=90, max_paths=20000, trusted=TRUST, reals=False,
         scope='{} starting simplices, {} in parallel, every order of completion'.format(_num, _lim))(schedules(_num, _lim, _sten, _fail))


@spec('C16', functions=FUNS, seconds=60, trusted=TRUST, reals=False, scope='an earlier state with positions to refine, without and with a stencil')
def left_positions(vc):
    env = Env(vc, 1 + vc.pick(2, 'limit'))
    env.initial = []
    stencil = numpy.array([[[0.25], [0.5]]]) if vc.choose('stencil') else None
    simplices = [simplex(1, 10.)] if vc.choose('simplex') else []
    positions = [(20., ), (30., )][:vc.pick(3, 'positions')]
    ctl = controller(env, Old(simplices, positions), refinement_stencil=stencil, recheck_pos_dist=False)
    exc = env.drive(ctl.run())
    expected = list(simplices)
    if stencil is not None:
        for p in positions:
            expected += [norm(s) for s in (numpy.array(p) + stencil)]
    finished(env, ctl, exc, expected, stencil is not None)
    if stencil is None:
        vc.prove('without a stencil nothing is refined', z3.BoolVal([tuple(p) for p in ctl.state.position_queue.objects] == positions and not env.result.refined))


# ------------------------------------------------------------ C17: decisions
def close(vc, cont, a, b):
    d = cont.distance(a, b)
    return lift(d < 1.) if isinstance(d, S) else z3.BoolVal(d < 1.)


def count(conds):
    return z3.Sum([z3.IntVal(0)] + [z3.If(c, 1, 0) for c in conds])


def new_node(num):

    def check(vc):
        env = Env(vc, 1, idle=0)
        env.initial = []
        refined = [(60. + k, ) for k in range(num)]
        node = vc.choose('node')
        env.outcome = lambda run: types.SimpleNamespace(pos=numpy.array([50. + run.number]), node=run.number == 0 and node)
        stencil = numpy.array([[[0.25], [0.5]], [[-0.25], [-0.5]]])
        recheck = vc.choose('recheck')
        cutoff = vc.int('count_cutoff', low=0)
        ctl = controller(env, Old([simplex(1, 10.)], refined=refined), refinement_stencil=stencil, recheck_pos_dist=recheck, recheck_count_cutoff=cutoff, simplex_check_cutoff=9)
        env.drive(ctl.run())
        done = [v for k, v in env.result.log if k == 'refined']
        pos = (50., )
        near = count([close(vc, env.result, pos, r) for r in refined])
        want = near == 0
        vc.prove('a new node is refined exactly if no position already refined is closer than the cutoff', z3.BoolVal(bool(done)) == want if node else z3.BoolVal(not done))
        vc.prove('refining registers the position as refined', z3.BoolVal(done in ([], [pos])))
        runs = [norm(r.simplex) for r in env.runs[1:]]
        vc.prove('refining queues the translated and scaled stencil', z3.BoolVal(sorted(runs) == (sorted(norm(s) for s in (numpy.array(pos) + stencil)) if done else [])))

    return check


for _num in (0, 1, 3):
    spec('C17', name='new_node_{}_refined'.format(_num), functions=FUNS, seconds=60, trusted=TRUST, scope='a new node and {} refined positions, through a whole search'.format(_num))(new_node(_num))


def recheck_position(num):

    def check(vc):
        env = Env(vc, 1, idle=0)
        env.initial = []
        refined = [(60. + k, ) for k in range(num)]
        recheck = vc.choose('recheck')
        cutoff = vc.int('count_cutoff', low=0)
        stencil = numpy.array([[[0.25], [0.5]], [[-0.25], [-0.5]]])
        pos = (20., )
        ctl = controller(env, Old([], [pos], refined=refined), refinement_stencil=stencil, recheck_pos_dist=recheck, recheck_count_cutoff=cutoff, simplex_check_cutoff=9)
        env.drive(ctl.run())
        done = [v for k, v in env.result.log if k == 'refined']
        near = count([close(vc, env.result, pos, r) for r in refined])
        vc.prove('it is refined exactly if at most the allowed number of refined positions are close, or it is not rechecked', z3.BoolVal(bool(done)) == (near <= cutoff.e if recheck else z3.BoolVal(True)))
        vc.prove('refining registers the position as refined', z3.BoolVal(done in ([], [pos])))
        runs = [norm(r.simplex) for r in env.runs]
        vc.prove('refining queues the translated and scaled stencil', z3.BoolVal(sorted(runs) == (sorted(norm(s) for s in (numpy.array(pos) + stencil)) if done else [])))

    return check


for _num in (0, 1, 3):
    spec('C16', 'C17', name='recheck_{}_refined'.format(_num), functions=FUNS, seconds=60, trusted=TRUST, scope='a queued position and {} refined ones, through a whole search'.format(_num))(recheck_position(_num))


def check_simplex(dim, num):

    def check(vc):
        env = Env(vc, 1, idle=0)
        nodes = [node_at(*([60. + k] * dim)) for k in range(num)]
        if num and vc.choose('at_vertex'):
            nodes[0] = node_at(*simplex(dim, 10.)[0])
        env.initial = nodes
        cutoff = vc.int('vertex_cutoff', low=0)
        s = simplex(dim, 10.)
        ctl = controller(env, Old([s], results=nodes), dim=dim, refinement_stencil=None, simplex_check_cutoff=cutoff)
        env.drive(ctl.run())
        near = count([z3.Or([z3.BoolVal(False)] + [close(vc, env.result, v, n.pos) for n in nodes if key(n.pos) != key(v)]) for v in s])
        vc.prove('a simplex is dropped exactly if more than the allowed number of vertices have another node closer than the cutoff', z3.BoolVal(not env.runs) == (near > cutoff.e))
        vc.prove('it is minimized at most once', z3.BoolVal([norm(r.simplex) for r in env.runs] in ([], [norm(s)])))
        vc.prove('a dropped simplex is finished', z3.BoolVal(not list(ctl.state.simplex_queue.objects)))

    return check


for _dim, _num in ((1, 0), (1, 2), (2, 1), (2, 2), (3, 1)):
    spec('C16', 'C17', name='recheck_simplex_{}d_{}_nodes'.format(_dim, _num), functions=FUNS, seconds=60, trusted=TRUST, scope='a simplex of dimension {} and {} nodes, through a whole search'.format(_dim, _num))(check_simplex(_dim, _num))


# -------------------------------------------- any number (contracts of loops)
from pyvc.seq import SymSeq


class Ghost:
    """The number of marked elements before the k-th of a sequence."""

    def __init__(self, vc, name, n, mark):
        self.vc, self.n, self.mark = vc, n, mark
        self.f = z3.Function('number_' + name, z3.IntSort(), z3.IntSort())
        vc.fact(self.f(z3.IntVal(0)) == 0, self.f(n) >= 0)

    def at(self, k):
        f, n = self.f, self.n
        self.vc.fact(f(k) >= 0, f(k + 1) == f(k) + z3.If(self.mark(k), 1, 0), z3.Implies(k <= n, f(k) <= f(n)), z3.Implies(k + 1 <= n, f(k + 1) <= f(n)))
        return f(k)

    @property
    def total(self):
        return self.f(self.n)

    def counted(self, seq, val):
        """The number of elements of a sequence (or the sum of val), if these are the marked ones."""
        vc = self.vc
        k = vc.fresh_expr(z3.IntSort(), 'k')
        vc.fact(k >= 0, k < self.n)
        seq.instantiate(k)
        v = val(k)
        v = lift(v) if isinstance(v, (S, int, bool)) else None
        if v is None or v.sort() == z3.RealSort():
            raise core.Unsupported('sum over distances')
        if v.sort() == z3.BoolSort():
            v = z3.If(v, 1, 0)
        if not vc.entails(z3.If(seq.cond(k) if seq.cond is not None else z3.BoolVal(True), v, 0) == z3.If(self.mark(k), 1, 0)):
            raise core.Unsupported('the number of other elements')
        return self.total


class Counting:
    """Loop which counts the marked elements, and stops above a limit."""

    def __init__(self, ghost, limit):
        self.ghost, self.limit = ghost, limit

    def enter(self, vc, loc, names, seq):
        vc.coupled = 'local variables of the loop'
        vars_ = [n for n in names if n in loc]
        if len(vars_) != 1 or not isinstance(loc[vars_[0]], int) or isinstance(loc[vars_[0]], bool):
            raise core.Unsupported('a different loop')
        self.name = vars_[0]
        vc.prove('the count starts at zero', z3.BoolVal(loc[self.name] == 0))
        self.i = vc.int('i', low=0).e
        vc.fact(self.i <= seq.n)
        c = self.ghost.at(self.i)
        if self.leaves:
            vc.fact(c <= lift(self.limit))
        return {self.name: S(c)}

    def elements(self, vc, seq):
        if vc.branch(self.i < seq.n):
            seq.instantiate(self.i)
            yield seq.at(self.i)

    def preserved(self, vc, loc):
        val = lift(loc[self.name])
        vc.prove('the count is the number of marked elements so far', val == self.ghost.f(self.i + 1))
        if self.leaves:
            vc.prove('it continues only while the count is allowed', val <= lift(self.limit))


class Searching:
    """Loop over distances which is left at the first marked one."""

    def __init__(self, mark):
        self.mark = mark

    def enter(self, vc, loc, names, seq):
        vc.coupled = 'local variables of the loop'
        self.before = {n: loc[n] for n in names if n in loc}
        self.i = vc.int('j', low=0).e
        vc.fact(self.i <= seq.n)
        seq.for_all(lambda k: z3.Implies(k < self.i, z3.Not(self.mark(k))))
        return {}

    def elements(self, vc, seq):
        if vc.branch(self.i < seq.n):
            seq.instantiate(self.i)
            yield seq.at(self.i)

    def preserved(self, vc, loc):
        vc.prove('it continues only after an element which is not marked', z3.Not(self.mark(self.i)))
        vc.prove('nothing is counted then', z3.And([z3.BoolVal(True)] + [lift(loc[n]) == lift(v) if isinstance(v, (S, int)) else z3.BoolVal(loc[n] is v) for n, v in self.before.items()]))


class Looped(SymSeq):
    """Sequence with a contract for the loops over it."""
    contract = None

    def _vc_loop(self, lid, loc, names):
        return self.contract


def plain_controller(vc, dim=1, **kw):
    env = Env(vc, 1)
    env.initial = []
    return env, controller(env, Old(), dim=dim, **kw)


class Fixed:
    """A result container with given lookups; nothing else may be used."""

    def __init__(self, **kw):
        vars(self).update(kw)

    def __getattr__(self, name):
        raise core.Unsupported('use of {} of the result container'.format(name))


def get(ctl, name):
    if not hasattr(ctl, name):
        raise core.Unsupported('no {}'.format(name))
    return getattr(ctl, name)


@spec('C17', functions=[CTL + '_check_pos_refinement'], seconds=60, trusted=TRUST[:1], scope='any number of refined positions')
def check_pos_refinement_any(vc):
    cut = vc.real('dist_cutoff')
    vc.assume(cut > 0)
    env, ctl = plain_controller(vc)
    vc.coupled = 'attributes of the controller'
    if not hasattr(ctl, 'dist_cutoff') or not hasattr(ctl, 'state'):
        raise core.Unsupported('different attributes')
    ctl.dist_cutoff = cut
    limit = vc.int('count_cutoff', low=0)
    d = z3.Function('distance', z3.IntSort(), z3.RealSort())
    seq = Looped.new(lambda k: S(d(k)), 'distances')
    seq.for_all(lambda k: d(k) >= 0)
    ghost = Ghost(vc, 'close', seq.n, lambda k: d(k) < cut.e)
    seq.contract = Counting(ghost, limit)
    seq.counted = ghost.counted
    pos = shims.new_vector('pos')
    asked = []

    def lookup(p):
        asked.append(p)
        return seq

    ctl.state.result = Fixed(get_refined_neighbour_distance_iterator=lookup, dist_cutoff=cut, refined_results=None)
    res = call(vc, get(ctl, '_check_pos_refinement'), pos, count_cutoff=limit)
    vc.prove('it is refined exactly if at most the allowed number of refined positions are closer than the cutoff', core.truth(S(lift(res))) == (ghost.total <= limit.e))
    vc.prove('the distances are those from the position', z3.BoolVal(len(asked) == 1 and asked[0] is pos))


@spec('C17', functions=[CTL + '_check_simplex'], seconds=60, trusted=TRUST[:1], scope='any number of vertices and nodes')
def check_simplex_any(vc):
    cut = vc.real('dist_cutoff')
    vc.assume(cut > 0)
    env, ctl = plain_controller(vc)
    vc.coupled = 'attributes of the controller'
    if not hasattr(ctl, 'dist_cutoff') or not hasattr(ctl, 'simplex_check_cutoff'):
        raise core.Unsupported('different attributes')
    ctl.dist_cutoff = cut
    limit = ctl.simplex_check_cutoff = vc.int('vertex_cutoff', low=0)
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    d, num, near, wit = z3.Function('distance', I, I, R), z3.Function('nodes_at', I, I), z3.Function('near', I, B), z3.Function('nearest', I, I)

    class Vertex:
        def __init__(self, k):
            self.k = k

    simplex_ = Looped.new(Vertex, 'simplex')
    ghost = Ghost(vc, 'near', simplex_.n, near)
    simplex_.contract = Counting(ghost, limit)
    simplex_.counted = ghost.counted

    def lookup(v):
        if not isinstance(v, Vertex):
            raise core.Unsupported('lookup for something else')
        k = v.k
        vc.fact(num(k) >= 0)
        seq = Looped(num(k), lambda j: S(d(k, j)), name='distances')
        # definition of near: there is a node closer than the cutoff
        seq.for_all(lambda j: z3.And(d(k, j) >= 0, z3.Implies(d(k, j) < cut.e, near(k))))
        w = wit(k)
        vc.fact(z3.Implies(near(k), z3.And(w >= 0, w < num(k), d(k, w) < cut.e)))
        seq.instantiate(w)
        vc.witnesses.append(w)
        seq.contract = Searching(lambda j: d(k, j) < cut.e)
        return seq

    ctl.state.result = Fixed(get_neighbour_distance_iterator=lookup, get_all_neighbour_distances=lookup, dist_cutoff=cut)
    res = call(vc, get(ctl, '_check_simplex'), simplex_)
    vc.prove('a simplex is dropped exactly if more than the allowed number of vertices have another node closer than the cutoff', core.truth(S(lift(res))) == (ghost.total <= limit.e))


KINDS = ('active', 'done', 'failed', 'cancelled')


class Rep:
    """All tasks of one kind."""

    def __init__(self, kind):
        self.kind = kind
        self.exc = GapError() if kind == 'failed' else Cancelled() if kind == 'cancelled' else None

    def done(self):
        return self.kind != 'active'

    def cancelled(self):
        return self.kind == 'cancelled'

    def exception(self):
        if self.kind == 'active':
            raise core.Unsupported('exception of a task which is not done')
        if self.kind == 'cancelled':
            raise self.exc
        return self.exc

    def result(self):
        if self.kind == 'active':
            raise core.Unsupported('result of a task which is not done')
        if self.exc is not None:
            raise self.exc


class GroupLoop:
    """
    Loop over a group: its elements in any order. Equal elements change
    nothing but the local variables, and each of these states is followed once.
    """
    sequential = True

    def __init__(self, group):
        self.group = group

    def enter(self, vc, loc, names, seq):
        self.names = names
        return {}

    def preserved(self, vc, loc):
        self.loc = loc

    def state(self):
        return tuple((n, self.loc[n] if isinstance(self.loc[n], (int, str, float)) else id(self.loc[n])) for n in self.names if n in self.loc)

    def elements(self, vc, seq):
        present = [(n, x) for n, x in self.group.items if vc.branch(n > 0)]
        seen, states, bag = [0] * len(present), set(), Bag.current
        removed = {}
        for _ in range(12):
            if all(seen) and (not present or vc.choose('last element')):
                break
            k = vc.pick(len(present), 'element')
            seen[k] += 1
            if seen[k] > 1 and not vc.branch(present[k][0] >= seen[k]):
                raise core.PathEnd()
            bag.removed = []
            yield present[k][1]
            now, bag.removed = bag.removed, None
            if now and getattr(self, 'changing', False):
                raise RuntimeError('Set changed size during iteration')
            if any(x is not present[k][1] for x in now) or removed.setdefault(k, len(now)) != len(now) or len(now) > 1:
                raise core.Unsupported('removing other tasks')
            st = (tuple(bool(s) for s in seen), self.state())
            if st in states:
                raise core.PathEnd()
            states.add(st)
        else:
            raise core.Unsupported('a loop over tasks which counts')
        for k, num in removed.items():
            if num:
                kind = present[k][1].kind
                bag.n[kind] = bag.n[kind] - present[k][0]


class Group:
    """Some values, each of them any number of times."""
    _vc_symbolic = True

    def __init__(self, items):
        self.items = items

    def _vc_loop(self, lid, loc, names):
        return GroupLoop(Group(list(self.items)))

    def _vc_comp(self, kind, elt, cond):
        if kind not in ('list', 'set', 'gen'):
            raise core.Unsupported('comprehension')
        res = []
        for n, x in self.items:
            try:
                if cond is None or cond(x):
                    res.append((n, elt(x)))
            except Cancelled:
                # if there is such a task
                if core.cur().branch(n > 0):
                    raise
        return Group(res)

    def total(self):
        return z3.Sum([z3.IntVal(0)] + [n for n, _ in self.items])

    def __bool__(self):
        return core.cur().branch(self.total() > 0)

    def _vc_len(self):
        return S(self.total())

    def _vc_list(self):
        return Group(list(self.items))

    _vc_tuple = _vc_set = _vc_iter = _vc_list

    def __getitem__(self, k):
        if k not in (0, -1):
            raise core.Unsupported('element of a group')
        for n, x in self.items if k == 0 else self.items[::-1]:
            if core.cur().branch(n > 0):
                return x
        raise IndexError('list index out of range')

    def _vc_next(self, *default):
        for n, x in self.items:
            if core.cur().branch(n > 0):
                return x
        if default:
            return default[0]
        raise StopIteration

    def __iter__(self):
        yield ('group', self)


class Bag(Group):
    """The set of tasks."""

    removed = None

    def __init__(self, reps):
        self.reps = reps
        self.n = {k: z3.IntVal(0) for k in reps}
        Bag.current = self

    def _vc_loop(self, lid, loc, names):
        loop = super()._vc_loop(lid, loc, names)
        loop.changing = True
        return loop

    @property
    def items(self):
        if self.removed:
            raise core.Unsupported('tasks are removed')
        return [(self.n[k], self.reps[k]) for k in KINDS]

    def add(self, rep):
        if not isinstance(rep, Rep):
            raise core.Unsupported('adding something else to the tasks')
        self.n[rep.kind] = self.n[rep.kind] + 1

    def difference_update(self, *others):
        for o in others:
            if not isinstance(o, Group):
                raise core.Unsupported('removing something else from the tasks')
            for n, x in o.items:
                self.n[x.kind] = self.n[x.kind] - n

    __isub__ = None

    def discard(self, x):
        if self.removed is None or not isinstance(x, Rep):
            raise core.Unsupported('discarding a task')
        self.removed.append(x)

    remove = discard


class Scheduler:
    """The controller in an arbitrary state during create_tasks."""

    def __init__(self, vc, dim, stencil):
        self.vc = vc
        self.limit = vc.int('num_parallel', low=1)
        env = Env(vc, self.limit)
        env.initial = []
        stubs = env.asyncio()
        stubs.ensure_future = stubs.create_task = self.schedule
        stubs.sleep, stubs.gather, stubs.wait = self.sleep, self.gather, self.wait
        stubs.get_event_loop = stubs.get_running_loop = lambda: types.SimpleNamespace(create_task=self.schedule)
        loader = loader_for(env, asyncio=stubs)
        self.recheck, self.count_cutoff = vc.bool('recheck'), vc.int('count_cutoff', low=0)
        self.stencil = numpy.array([[[0.25] * dim] * (dim + 1), [[-0.5] * dim] * (dim + 1)]) if stencil else None
        cut = vc.real('feature_size')
        vc.assume(cut > 0)
        self.ctl = ctl = controller(env, Old(), dim=dim, loader=loader, refinement_stencil=self.stencil, num_minimize_parallel=self.limit, feature_size=cut, recheck_pos_dist=self.recheck,
                                    recheck_count_cutoff=self.count_cutoff, save_file='')
        vc.coupled = 'attributes of the controller'
        for name in ('task_futures', 'state', 'run_simplex', '_check_simplex', '_check_pos_refinement', 'create_tasks'):
            get(ctl, name)
        self.cut, self.dim = cut, dim
        self.reps = {k: Rep(k) for k in KINDS}
        self.pending = self.refining = None
        self.npos = z3.IntVal(0)
        self.nq, self.nr, self.active, self.failed, self.cancelled = [z3.IntVal(0)] * 5
        if ctl.task_futures != set():
            raise core.Unsupported('different representation of the tasks')
        ctl.task_futures = Bag(self.reps)
        ctl.run_simplex = self.run_simplex
        ctl._check_simplex = self.check_simplex
        ctl._check_pos_refinement = self.check_pos
        ctl.state = types.SimpleNamespace(simplex_queue=Simplices(self), position_queue=Positions(self), needs_saving=True,
                                          result=Fixed(set_refined=self.set_refined))
        self.loop_names = set()
        # the loops of create_tasks, or of methods it calls, from the outside
        self.entered = []
        vc.loops[self.while_loop] = None

    def while_loop(self, lid, _loc, _names, seq):
        if seq is not None or not lid.startswith('Controller.') or lid in self.entered:
            return None
        self.entered.append(lid)
        return WhileLoop(self, len(self.entered))

    # -- contracts of the callees
    def run_simplex(self, simplex_):
        return ('run', simplex_)

    def check_simplex(self, simplex_):
        self.vc.prove('the simplex which was taken is checked', z3.BoolVal(simplex_ is self.pending))
        self.verdict = self.vc.choose('simplex')
        return self.verdict

    def check_pos(self, pos, count_cutoff=0):
        self.vc.prove('the position which was taken is checked, with the allowed number', z3.And(z3.BoolVal(self.refining is not None and pos is self.refining['pos']), lift(count_cutoff) == self.count_cutoff.e))
        ok = self.vc.choose('position')
        if self.refining is not None:
            self.refining['verdict'] = ok
        return ok

    def schedule(self, coro, **_kw):
        vc = self.vc
        if not isinstance(coro, tuple) or coro[0] != 'run':
            raise core.Unsupported('another task')
        vc.prove('the simplex which was taken is minimized, once, if it is not dropped', z3.BoolVal(coro[1] is self.pending and self.verdict is True))
        self.pending = None
        self.active = self.active + 1
        vc.prove('never more than the configured number of minimizations in progress', self.active <= self.limit.e)
        return self.reps['active']

    def progress(self, all_=False):
        """Any tasks end, in any way; they may find nodes."""
        vc, bag = self.vc, self.ctl.task_futures
        good, bad, off = vc.int('completed', low=0).e, vc.int('failing', low=0).e, vc.int('cancelled', low=0).e
        ended = good + bad + off
        vc.fact(ended == self.active if all_ else ended <= self.active)
        self.active = self.active - ended
        self.failed = self.failed + bad
        self.cancelled = self.cancelled + off
        self.nr = self.nr - good
        bag.n['active'] = bag.n['active'] - ended
        bag.n['cancelled'] = bag.n['cancelled'] + off
        bag.n['done'] = bag.n['done'] + good
        bag.n['failed'] = bag.n['failed'] + bad
        if self.stencil is not None:
            new = vc.int('new_positions', low=0).e
            vc.fact(z3.Implies(good == 0, new == 0), new <= good)
            self.npos = self.npos + new

    async def sleep(self, delay=0, result=None):
        self.settled()
        self.progress()
        return result

    async def wait(self, what, *, timeout=None, return_when='ALL_COMPLETED'):
        bag = self.ctl.task_futures
        if what is not bag:
            raise core.Unsupported('waiting for something else')
        if self.vc.branch(z3.Sum([bag.n[k] for k in KINDS]) == 0):
            raise OwnError('Set of Tasks/Futures is empty.')
        self.settled()
        failed = self.failed + self.cancelled
        some = z3.Or([bag.n[k] > 0 for k in KINDS if k != 'active'])
        before = self.active
        self.progress(timeout is None and return_when == 'ALL_COMPLETED')
        if timeout is None and return_when == 'FIRST_COMPLETED':
            self.vc.fact(z3.Or(some, self.active < before))
        if timeout is None and return_when == 'FIRST_EXCEPTION':
            self.vc.fact(z3.Or(self.active == 0, self.failed + self.cancelled > failed, bag.n['failed'] + bag.n['cancelled'] > 0))
        return object(), object()

    async def gather(self, *what, return_exceptions=False):
        if return_exceptions or len(what) != 1 or not isinstance(what[0], tuple) or what[0][0] != 'group':
            raise core.Unsupported('gather')
        bag = self.ctl.task_futures
        if what[0][1] is not bag:
            raise core.Unsupported('waiting for something else')
        self.settled()
        self.progress(True)
        for kind in ('failed', 'cancelled'):
            if self.vc.branch(bag.n[kind] > 0):
                raise self.reps[kind].exc

    # -- the state
    def settled(self):
        vc = self.vc
        vc.prove('every simplex which was taken is minimized or finished', z3.BoolVal(self.pending is None))
        if self.refining is not None:
            r = self.refining
            asked = r['verdict'] is not None
            allowed = z3.Or(z3.Not(self.recheck.e), z3.BoolVal(r['verdict'] is True))
            vc.prove('a position is rechecked unless this is disabled', z3.Or(z3.Not(self.recheck.e), z3.BoolVal(asked)))
            vc.prove('it is refined exactly if the recheck allows it or is disabled', z3.BoolVal(r['added'] is not None) == allowed)
            vc.prove('it is registered as refined exactly then', z3.BoolVal(r['set']) == allowed)
            if r['added'] is not None:
                vc.prove('refining queues the translated and scaled stencil', self.translated(r))
            self.refining = None

    def translated(self, r):
        got = r['added']
        if not isinstance(got, Arr) or got.shape != self.stencil.shape:
            return z3.BoolVal(False)
        conds = []
        for s in range(got.shape[0]):
            for v in range(got.shape[1]):
                for i in range(got.shape[2]):
                    conds.append(3 * to_real(lift(got.a[s, v, i])) == 3 * lift(r['pos'][i]) + core.real_of(self.stencil[s, v, i]) * self.cut.e)
        return z3.And(conds)

    def set_refined(self, pos):
        ok = self.refining is not None and isinstance(pos, Arr) and len(pos) == self.dim
        self.vc.prove('the position which was taken is registered as refined', z3.And([lift(a) == lift(b) for a, b in zip(pos, self.refining['pos'])]) if ok else z3.BoolVal(False))
        if self.refining is not None:
            self.refining['set'] = True

    def check(self, where):
        vc, bag = self.vc, self.ctl.task_futures
        if not isinstance(bag, Bag):
            raise core.Unsupported('different representation of the tasks')
        self.settled()
        vc.prove('the running simplices are those of the tasks ({})'.format(where), self.nr == self.active + self.failed + self.cancelled)
        vc.prove('every task in progress is known ({})'.format(where), bag.n['active'] == self.active)
        vc.prove('no exception is lost ({})'.format(where), z3.And(bag.n['failed'] == self.failed, bag.n['cancelled'] == self.cancelled))
        vc.prove('not more are running than configured ({})'.format(where), self.nr <= self.limit.e)

    def havoc(self, queues_only=False):
        vc, bag = self.vc, self.ctl.task_futures
        if queues_only:
            self.nq, self.npos = [vc.int(n, low=0).e for n in ('queued', 'positions')]
            return
        self.active, self.failed, self.cancelled, self.nq, self.npos = [vc.int(n, low=0).e for n in ('active', 'failed', 'cancelled', 'queued', 'positions')]
        self.nr = self.active + self.failed + self.cancelled
        vc.fact(self.nr <= self.limit.e)
        bag.n.update(active=self.active, failed=self.failed, cancelled=self.cancelled, done=vc.int('done', low=0).e)


class WhileLoop:
    def __init__(self, sched, number):
        self.s, self.number = sched, number

    def enter(self, vc, _loc, _names, _seq):
        self.s.check('initially')
        self.s.havoc(queues_only=self.number == 3)
        self.frame = (self.s.nr, self.s.active, self.s.failed, self.s.cancelled)
        return {}

    def preserved(self, vc, _loc):
        self.s.check('after every step')
        if self.number == 3:
            s = self.s
            vc.prove('refining does not start or end minimizations', z3.And([a == b for a, b in zip(self.frame, (s.nr, s.active, s.failed, s.cancelled))]))


class Simplices:
    """Contract of SimplexQueue (C11, C12)."""

    def __init__(self, sched):
        object.__setattr__(self, 's', sched)

    def __setattr__(self, name, val):
        raise core.Unsupported('setting {}'.format(name))

    def __getattr__(self, name):
        raise core.Unsupported('use of {} of the queue'.format(name))

    has_queued = property(lambda self: S(self.s.nq > 0))
    num_running = property(lambda self: S(self.s.nr))
    finished = property(lambda self: S(self.s.nq + self.s.nr == 0))

    def pop_queued(self):
        s = self.s
        s.settled()
        s.vc.prove('nothing is taken from an empty queue', s.nq > 0)
        s.nq, s.nr = s.nq - 1, s.nr + 1
        s.pending = object()
        s.verdict = None
        return s.pending

    def set_finished(self, obj):
        s = self.s
        s.vc.prove('only the simplex which was taken and is dropped is finished', z3.BoolVal(obj is s.pending and s.verdict is False))
        s.pending = None
        s.nr = s.nr - 1

    def add_objects(self, objs):
        s = self.s
        s.vc.prove('simplices are added for the position which was taken', z3.BoolVal(s.refining is not None and s.refining['added'] is None))
        if s.refining is not None:
            s.refining['added'] = objs
        new = s.vc.int('new_simplices', low=0)
        s.nq = s.nq + new.e


class Positions:
    """Contract of PositionQueue (C11, C12)."""

    def __init__(self, sched):
        object.__setattr__(self, 's', sched)

    __setattr__ = Simplices.__setattr__
    __getattr__ = Simplices.__getattr__
    has_queued = property(lambda self: S(self.s.npos > 0))

    def pop_queued(self):
        s = self.s
        s.settled()
        s.vc.prove('nothing is taken from an empty queue of positions', s.npos > 0)
        s.vc.prove('positions are refined only with a stencil', z3.BoolVal(s.stencil is not None))
        s.npos = s.npos - 1
        pos = tuple(s.vc.real('pos') for _ in range(s.dim))
        s.refining = dict(pos=pos, verdict=None, added=None, set=False)
        return pos


def create_tasks_any(props, dim, stencil):

    def check(vc):
        s = Scheduler(vc, dim, stencil)
        s.havoc()
        # at the start no task exists
        vc.fact(s.active == 0, s.failed == 0, s.cancelled == 0)
        s.ctl.task_futures.n.update(active=s.active, failed=s.failed, cancelled=s.cancelled, done=z3.IntVal(0))
        raised = None
        try:
            from .minim import drive
            drive(s.ctl.create_tasks())
        except (GapError, Cancelled) as exc:
            raised = exc
        except OwnError:
            vc.fail('the search ends without an error of its own')
            return
        except AssertionError as exc:
            vc.real_exception('no assertion in the code fails', exc)
            return
        bag = s.ctl.task_futures
        vc.prove('an exception of the gap function is raised by the search', z3.BoolVal(raised is not None) == (s.failed + s.cancelled > 0))
        if raised is None:
            vc.prove('no simplex is left queued or running', z3.And(s.nq == 0, s.nr == 0))
            vc.prove('no minimization is still in progress', s.active == 0)
            if stencil:
                vc.prove('no position is left to refine', s.npos == 0)
            vc.prove('every simplex which was taken is minimized or finished', z3.BoolVal(s.pending is None))

    return check


for _dim, _sten in ((1, True), (3, True), (2, False)):
    spec('C16', 'C17', name='create_tasks_any_{}d{}'.format(_dim, '' if _sten else '_no_stencil'), functions=[CTL + n for n in ('create_tasks', 'schedule_minimization', '_has_queued_positions', '__init__')], seconds=90, max_paths=5000,
         trusted=TRUST + ['contracts of SimplexQueue and PositionQueue as proved in C11 and C12'], scope='any number of simplices, positions and tasks, every schedule (partial correctness: termination is not proved)')(create_tasks_any(None, _dim, _sten))


@spec('C16', 'C01', functions=[CTL + 'run_simplex'], seconds=60, trusted=TRUST, reals=False, scope='any simplex and result')
def run_simplex_contract(vc):
    from .minim import drive
    env, ctl = plain_controller(vc, use_fake_potential=vc.choose('fake'), nelder_mead_kwargs={'maxiter': 7})
    s, res = object(), object()
    calls = []
    fails = vc.choose('fails')
    exc = GapError()

    async def run_minimization(func, *, initial_simplex, fake_potential=None, nelder_mead_kwargs=types.MappingProxyType({})):
        calls.append((func, initial_simplex, fake_potential, dict(nelder_mead_kwargs)))
        if fails:
            raise exc
        return res

    mod = sys_module(ctl)
    if not hasattr(mod, 'run_minimization'):
        raise core.Unsupported('no run_minimization')
    mod.run_minimization = run_minimization
    log = []
    get(ctl, 'process_result')
    vc.coupled = 'attributes of the controller'
    ctl.process_result = lambda r: log.append(('processed', r))
    ctl.state.simplex_queue = types.SimpleNamespace(set_finished=lambda x: log.append(('finished', x)))
    raised = None
    try:
        drive(get(ctl, 'run_simplex')(s))
    except GapError as e:
        raised = e
    vc.prove('the simplex is minimized once, with the settings of the search', z3.BoolVal(
        len(calls) == 1 and calls[0][1] is s and calls[0][0] is ctl.gap_fct and calls[0][2] is ctl.fake_potential and calls[0][3] == dict(ctl.nelder_mead_kwargs)))
    vc.prove('an exception is passed on, and nothing is processed then', z3.BoolVal((raised is exc) == fails and (not fails or not log)))
    vc.prove('the result is processed once and the simplex finished', z3.BoolVal(fails or sorted(log, key=str) == sorted([('processed', res), ('finished', s)], key=str)))


def sys_module(ctl):
    """the module (namespace) in which the controller is defined"""

    class Mod:
        def __init__(self, ns):
            object.__setattr__(self, 'ns', ns)

        def __getattr__(self, name):
            if name not in self.ns:
                raise AttributeError(name)
            return self.ns[name]

        def __setattr__(self, name, val):
            self.ns[name] = val

    return Mod(type(ctl).__init__.__globals__)


@spec('C17', 'C01', functions=[CTL + 'process_result'], seconds=60, trusted=TRUST[:1] + ['contract of _check_pos_refinement as proved'], reals=False, scope='any result')
def process_result_contract(vc):
    stencil = numpy.array([[[0.25], [0.5]]]) if vc.choose('stencil') else None
    env, ctl = plain_controller(vc, refinement_stencil=stencil)
    vc.coupled = 'attributes of the controller'
    node, free = vc.choose('node'), vc.choose('free')
    res = types.SimpleNamespace(pos=numpy.array([5.]))
    added, queued, asked = [], [], []
    moved = numpy.array([6.])

    def add_result(r):
        added.append(r)
        r.pos = moved  # normalised
        return node

    def check_pos(pos, count_cutoff=0):
        asked.append((pos, count_cutoff))
        return free

    get(ctl, '_check_pos_refinement')
    ctl._check_pos_refinement = check_pos
    ctl.state = types.SimpleNamespace(result=Fixed(add_result=add_result), position_queue=types.SimpleNamespace(add_objects=lambda objs: queued.extend(objs)))
    call(vc, get(ctl, 'process_result'), res)
    vc.prove('the result is added once', z3.BoolVal(len(added) == 1 and added[0] is res))
    want = node and free and stencil is not None
    vc.prove('a new node is queued for refinement exactly if no refined position is close', z3.BoolVal(len(queued) == (1 if want else 0)))
    vc.prove('its normalised position is queued', z3.BoolVal(all(q is moved for q in queued)))
    vc.prove('no position may be closer', z3.BoolVal(all(p is moved and c == 0 for p, c in asked)))
