"""
C01: what is reported by a search. Whole searches with the real minimisation,
container and queues (few iterations, every gap function), and one minimisation
in any search (against the contract of the Nelder-Mead method, C13).
"""
import types

import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.shims import Arr
from . import spec
from .coord import call
from .container import accepted, same
from .cells import World, State, Stored, MOD as CONT, CELL
from .control import CTL, Env, MOD, TRUST, FUNS as CONTROL
from .minim import FUNS as NELDER, MOD as NM, RUNMOD, RESMOD, drive
from pyvc.seq import SymSeq

CFUNS = [CONT + '.SearchResultContainer.' + n for n in ('__init__', 'add_result', 'minimization_results')]
LOOP = ['contract of asyncio: tasks run between awaits only, in any order of completion', 'contract of fsc.async_tools.wrap_to_coroutine and PeriodicTask']


def nums(x):
    return [to_real(lift(c)) for c in x]


class Gap:
    """An arbitrary gap function; calls are recorded."""

    def __init__(self, vc, n):
        self.vc, self.n = vc, n
        self.f = z3.Function('gap', *([z3.RealSort()] * (n + 1)))
        self.calls = []

    def __call__(self, x):
        if len(x) != self.n:
            raise core.Unsupported('evaluation at something else')
        x = nums(x)
        self.calls.append(x)
        return S(self.f(*x))


def loader_of(env):
    stubs = {'asyncio': env.asyncio(), 'fsc.async_tools': env.async_tools(), 'nodefinder.io': shims.module('nodefinder.io')}
    loader = load.Loader(stubs=stubs)
    loader.stubs['nodefinder'] = shims.module('nodefinder', io=stubs['nodefinder.io'])
    return loader


def whole_search(dim, mesh, iters, potential, periodic, refine, size=4.):

    def check(vc):
        env = Env(vc, 1 if potential else 1 + vc.pick(2, 'parallel') if mesh > 1 else 1, idle=0)
        loader = loader_of(env)
        gap = Gap(vc, dim)
        thr = vc.real('threshold')
        vc.assume(thr > 0)
        cls = loader.get(MOD, 'Controller')
        kw = dict(maxiter=iters, maxfev=1000)
        if iters > 1:
            kw.update(xtol=vc.real('xtol'), ftol=vc.real('ftol'))
            vc.assume(kw['xtol'] >= 0)
            vc.assume(kw['ftol'] >= 0)
        ctl = call(vc, cls, gap_fct=gap, limits=[(-1., size - 1.)] * dim, periodic=periodic, initial_state=None, save_file=None, load=False, load_quiet=True, initial_mesh_size=mesh, force_initial_mesh=False,
                   gap_threshold=thr, feature_size=3., nelder_mead_kwargs=kw, num_minimize_parallel=env.limit, refinement_stencil=numpy.array([[[0.25] * dim] + [[0.5] * (i + 1) + [0.25] * (dim - i - 1) for i in range(dim)]]) if refine else None,
                   use_fake_potential=potential, simplex_check_cutoff=99, recheck_pos_dist=False)
        exc = env.drive(ctl.run())
        vc.prove('the search ends', z3.BoolVal(exc is None))
        res = ctl.state.result
        nodes, bad = list(res.nodes), list(res.rejected_results)
        if not refine:
            vc.prove('each minimization appears exactly once', z3.BoolVal(len(nodes) + len(bad) == mesh**dim))
        vc.prove('no result appears twice', z3.BoolVal(len({id(r) for r in nodes + bad}) == len(nodes) + len(bad)))
        ok = lambda r: z3.And(core.truth(S(lift(r.success))), to_real(lift(r.value)) <= to_real(lift(thr)))
        for r in nodes:
            pos, val = nums(r.pos), to_real(lift(r.value))
            vc.prove('a node belongs to a successful minimization with a value not above the threshold', ok(r))
            here = []
            for x in gap.calls:
                conds = [val == gap.f(*x)]
                for a, b in zip(pos, x):
                    conds.append(z3.Or([a == b + k * z3.RealVal(size) for k in range(-4, 5)]) if periodic else a == b)
                here.append(z3.And(conds))
            vc.prove('the value of a node is that of the gap function at its position (up to whole periods)', z3.Or(here))
            if periodic:
                vc.prove('the position lies in the box', z3.And([z3.And(p >= -1, p <= z3.RealVal(size) - 1) for p in pos]))
        for r in bad:
            vc.prove('a rejected result is no node', z3.Not(ok(r)))

    return check


for _dim, _mesh, _iters, _pot, _per, _ref in ((1, 1, 1, False, True, False), (1, 2, 1, False, True, False), (1, 1, 2, False, True, False), (1, 1, 2, False, False, False), (1, 1, 2, True, True, False), (2, 1, 2, False, True, False), (1, 1, 2, False, True, True), (1, 1, 3, False, True, False)):
    spec('C01', name='whole_search_{}d_mesh{}_{}_iterations{}{}{}'.format(_dim, _mesh, _iters, '_potential' if _pot else '', '' if _per else '_open', '_refine' if _ref else ''), seconds=100, max_paths=20000,
         functions=CONTROL + CFUNS + NELDER + [RUNMOD + '.run_minimization'], trusted=LOOP, scope='dimension {}, {} starting simplices, at most {} iterations; every gap function'.format(_dim, _mesh**_dim, _iters))(whole_search(_dim, _mesh, _iters, _pot, _per, _ref))


# ------------------------------------- the function which is minimized
def minimized_function(dim, periodic):
    """What the minimization gets is the gap function: at positions anywhere, evaluated more than once."""

    def check(vc):
        env = Env(vc, 1, idle=0)
        stubs = {'asyncio': env.asyncio(), 'fsc.async_tools': env.async_tools(), 'nodefinder.io': shims.module('nodefinder.io')}
        gap = Gap(vc, dim)
        points = [[vc.real('x') for _ in range(dim)] for _ in range(2)]
        values = []

        async def run_minimization(func, *, initial_simplex, fake_potential=None, nelder_mead_kwargs=types.MappingProxyType({})):
            for k in (0, 1, 0):
                values.append((k, await func(Arr(list(points[k]))), len(gap.calls)))
            return types.SimpleNamespace(pos=numpy.array([0.5] * dim), value=1., success=False)

        stubs['nodefinder.search._minimization'] = shims.module('nodefinder.search._minimization', run_minimization=run_minimization)
        loader = load.Loader(stubs=stubs)
        loader.stubs['nodefinder'] = shims.module('nodefinder', io=stubs['nodefinder.io'])
        ctl = call(vc, loader.get(MOD, 'Controller'), gap_fct=gap, limits=[(0., 4.)] * dim, periodic=periodic, initial_state=None, save_file=None, load=False, load_quiet=True, initial_mesh_size=1, force_initial_mesh=False,
                   gap_threshold=0.5, feature_size=3., nelder_mead_kwargs={}, num_minimize_parallel=1, refinement_stencil=None, use_fake_potential=False, simplex_check_cutoff=99, recheck_pos_dist=False)
        exc = env.drive(ctl.run())
        vc.prove('the search ends', z3.BoolVal(exc is None))
        vc.prove('the minimization is run', z3.BoolVal(len(values) == 3))
        for k, val, _ in values:
            vc.prove('the function which is minimized is the gap function, at every position', to_real(lift(val)) == gap.f(*nums(points[k])))
        for k, _, num in values:
            here = z3.Or([z3.BoolVal(False)] + [z3.And([a == b for a, b in zip(x, nums(points[k]))]) for x in gap.calls[:num]])
            vc.prove('the gap function is called for the position which is evaluated', here)

    return check


for _dim, _per in ((1, True), (2, False)):
    spec('C01', name='minimized_function_{}d_{}'.format(_dim, 'periodic' if _per else 'open'), seconds=60, functions=[CTL + '__init__', CTL + 'run_simplex'], trusted=LOOP,
         scope='any gap function, two positions anywhere; dimension {}'.format(_dim))(minimized_function(_dim, _per))


# ------------------------------------------- one minimization in any search
def any_minimization(dim, periodic, potential):
    """The real run_simplex, run_minimization, process_result and container"""

    def check(vc):
        env = Env(vc, 1)
        loader = loader_of(env)
        w = World.__new__(World)
        World.__init__(w, vc, dim, periodic=periodic)
        w.loader = loader
        cls = loader.get('nodefinder.coordinate_system', 'CoordinateSystem')
        w.cs = cls(limits=[(l, l + s) for l, s in zip(w.lo, w.s)], periodic=periodic)
        w.cs.distance = w.distance
        w.container_cls = loader.get(CONT, 'SearchResultContainer')
        st = State(vc, w, 'nodes')
        cont = st.cont
        if cont.rejected_results != []:
            raise core.Unsupported('different representation of the rejected results')
        old = object()
        rejected = Stored(SymSeq.new(lambda k: old, 'rejected'))
        cont.rejected_results = rejected
        gap = Gap(vc, dim)
        mod = loader.load(RUNMOD)
        if not hasattr(mod, 'root_nelder_mead'):
            raise core.Unsupported('no root_nelder_mead')
        done = []

        async def root_nelder_mead(func, *, initial_simplex, **kw):
            # contract: a position where the function was evaluated, and its value
            k = len(done)
            x = w.position('r{}'.format(k))
            num = len(gap.calls)
            val = await func(x.copy())
            done.append((nums(x), num < len(gap.calls)))
            res = loader.get(RESMOD, 'MinimizationResult')(
                pos=x, value=val, success=vc.bool('success'), status=vc.int('status'), message='m', num_iter=vc.int('n'), num_fev=vc.int('n'),
                simplex_history=Arr([[[vc.real('s') for _ in range(dim)] for _ in range(dim + 1)]]), fun_simplex_history=Arr([[vc.real('v') for _ in range(dim + 1)]]))
            done[-1] += (res.success, )
            return res

        mod.root_nelder_mead = root_nelder_mead
        ctl_cls = loader.get(MOD, 'Controller')
        for n in ('run_simplex', 'process_result'):
            if not hasattr(ctl_cls, n):
                raise core.Unsupported('no ' + n)
        vc.coupled = 'attributes of the controller'
        ctl = ctl_cls.__new__(ctl_cls)
        finished = []

        async def gap_fct(x):
            return gap(x)

        def pot(x):
            return S(z3.Function('potential', *([z3.RealSort()] * (dim + 1)))(*nums(x)))

        ctl.gap_fct = gap_fct
        ctl.fake_potential = pot if potential else None
        ctl.nelder_mead_kwargs = {'ftol': 1., 'xtol': 1.}
        ctl.refinement_stencil = None
        ctl.coordinate_system, ctl.dim, ctl.save_file = w.cs, dim, None
        ctl.state = types.SimpleNamespace(result=cont, simplex_queue=types.SimpleNamespace(set_finished=finished.append), position_queue=types.SimpleNamespace())
        s = Arr([[vc.real('s') for _ in range(dim)] for _ in range(dim + 1)])
        call(vc, lambda: drive(ctl.run_simplex(s)))
        flat = st.cells._values_flat
        intact = cont.nodes is st.cells and isinstance(flat, Stored) and flat.seq is st.flat and cont.rejected_results is rejected
        vc.prove('the earlier results are kept', z3.BoolVal(intact))
        vc.prove('the simplex is finished', z3.BoolVal(len(finished) == 1 and finished[0] is s))
        if not intact:
            return
        x, _, success = done[-1]
        good = z3.And(success.e, gap.f(*x) <= to_real(lift(w.threshold)))
        vc.prove('the minimization appears exactly once', z3.BoolVal(len(flat.new) + len(rejected.new) == 1))
        vc.prove('it is a node exactly if it was successful with a gap not above the threshold', good == z3.BoolVal(len(flat.new) == 1))
        for r in list(flat.new) + list(rejected.new):
            vc.prove('its value is that of the gap function', to_real(lift(r.value)) == gap.f(*x))
            want = w.cs.normalize_position(Arr([S(c) for c in x]))
            vc.prove('its position is the one of that value, up to whole periods', z3.And([a == b for a, b in zip(nums(r.pos), nums(want))]))
            vc.prove('success is that of the minimization', core.truth(S(lift(r.success))) == success.e)

    return check


for _dim in (1, 2, 3):
    for _per in (False, True):
        for _pot in (False, True):
            spec('C01', name='any_minimization_{}d_{}{}'.format(_dim, 'periodic' if _per else 'open', '_potential' if _pot else ''), functions=[CTL + 'run_simplex', CTL + 'process_result', RUNMOD + '.run_minimization', RESMOD + '.JoinedMinimizationResult'] + CFUNS, seconds=60,
                 trusted=['contract of root_nelder_mead as proved in C13'], scope='dimension {}, any number of earlier results, any gap function'.format(_dim))(any_minimization(_dim, _per, _pot))
