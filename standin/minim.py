"""C13 - C15: Nelder-Mead and the two-stage minimization."""
import asyncio
import hashlib
import itertools
import types

import numpy as np

from .common import case, expect, need, call, Skip

NM = 'nodefinder.search._minimization._nelder_mead', 'root_nelder_mead'
RM = 'nodefinder.search._minimization._run', 'run_minimization'


def run_coro(coro):
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.close()


def gen_function(rng, dim, nan=False):
    """A deterministic function of the position, recording its calls."""
    kind = int(rng.integers(8 if nan else 7))
    x0 = rng.normal(size=dim)
    scale = np.exp(rng.uniform(-1, 1, size=dim))
    salt = rng.bytes(8)

    def func(x):
        x = np.asarray(x, dtype=float) + 0.  # no negative zero
        if kind == 0:
            return float(np.sum(scale * (x - x0)**2))
        if kind == 1:
            return float(np.sqrt(np.sum(scale * (x - x0)**2)))
        if kind == 2:
            return float(np.sum(np.abs(x - x0)) + .3 * np.sin(20 * x[0]))
        if kind == 3:  # any value at all
            h = hashlib.md5(salt + x.tobytes()).digest()
            return int.from_bytes(h[:2], 'little') / 64. - 300
        if kind == 4:  # infinite regions
            return float('inf') if np.sin(5 * x[0] + x0[0]) > .3 else float(np.sum((x - x0)**2))
        if kind == 5:  # plateaus
            return float(np.round(np.sum((x - x0)**2), 0))
        if kind == 6:  # slows down: long shrink sequences
            h = hashlib.md5(salt + x.tobytes()).digest()
            return float(h[0] < 128) * 1e3 + float(np.sum((x - x0)**2))
        return float('nan') if np.sin(5 * x[0] + x0[0]) > .3 else float(np.sum((x - x0)**2))

    return kind, func


class Recorder:
    def __init__(self, func, delays=None):
        self.func = func
        self.calls = []
        self.delays = delays

    async def __call__(self, x):
        x = np.array(x, dtype=float)
        if self.delays is not None and self.delays.integers(3) == 0:
            await asyncio.sleep(0)
        val = self.func(x)
        self.calls.append((x, val))
        return val


def same(a, b):
    return a == b or (a != a and b != b)


def gen_args(rng, dim, stop=True):
    kw = dict(xtol=float(rng.choice([1e-4, 1e-2, .3, 0., 1e9])), ftol=float(rng.choice([1e-6, 1e-2, .5, 0., np.inf, 1e9])))
    kind = rng.integers(5)
    if kind == 0:
        kw['maxfev'] = int(rng.integers(0, 40))
    elif kind == 1:
        kw['maxiter'] = int(rng.integers(0, 30))
    elif kind == 2:
        kw['maxfev'] = int(rng.integers(1, 60))
        kw['maxiter'] = int(rng.integers(1, 30))
    if rng.integers(3) == 0:
        kw['fprime_cutoff'] = float(rng.choice([1e-2, .5, 3., 100.]))
    if rng.integers(6) == 0:
        kw['keep_history'] = False
    return kw


def gen_simplex(rng, dim):
    kind = rng.integers(4)
    sim = rng.normal(size=(dim + 1, dim))
    if kind == 0:
        sim = rng.normal(size=dim) + np.vstack([np.zeros(dim), np.eye(dim) * rng.uniform(.01, 1)])
    elif kind == 1:
        sim = np.round(sim)
    elif kind == 2:
        sim *= 1e-3
    if rng.integers(3) == 0:
        return tuple(tuple(x) for x in sim)
    if rng.integers(8) == 0:
        return [[int(y) for y in x] for x in np.round(sim * 3)]
    return sim


def truth_checks(res, rec, func, initial, nan=False):
    pos, value = np.asarray(res.pos), res.value
    hit = [v for x, v in rec.calls if np.array_equal(x, pos)]
    expect(len(hit) > 0, 'the reported position was never evaluated', pos=pos, value=value)
    expect(all(same(v, value) for v in hit), 'the reported value is not the value at the reported position', pos=pos, value=value, actual=hit[:2])
    expect(res.num_fev == len(rec.calls), 'the evaluation count is wrong', num_fev=res.num_fev, calls=len(rec.calls))
    vals = [func(x) for x in np.asarray(initial, dtype=float)]
    vals = [v for v in vals if v == v]
    if vals:
        expect(value <= min(vals), 'worse than the initial simplex', value=value, initial=vals)
    final = np.asarray(res.simplex_history)[-1]
    fvals = [func(x) for x in final]
    fvals = [v for v in fvals if v == v]
    if fvals:
        expect(not any(v < value for v in fvals), 'a vertex of the final simplex has a lower value', value=value, final=fvals)
    expect(any(np.array_equal(x, pos) for x in final), 'the reported position is not a vertex of the final simplex', pos=pos, final=final)


def setup(rng, ctx, nan=False):
    root = need(*NM)
    dim = int(rng.integers(1, 5))
    kind, func = gen_function(rng, dim, nan=nan)
    sim = gen_simplex(rng, dim)
    kw = gen_args(rng, dim)
    ctx.input(dim=dim, function=kind, initial_simplex=sim, kwargs=kw)
    rec = Recorder(func, delays=rng if rng.integers(3) == 0 else None)
    keep = np.array(sim, dtype=float)
    res = run_coro(call(root, rec, initial_simplex=sim, **kw))
    expect(np.array_equal(keep, np.array(sim, dtype=float)), 'the initial simplex was modified')
    return dim, kind, func, keep, kw, rec, res


@case('C13', weight=3)
def best_vertex(rng, ctx):
    dim, kind, func, sim, kw, rec, res = setup(rng, ctx, nan=bool(rng.integers(4) == 0))
    truth_checks(res, rec, func, sim)


@case('C14', weight=3)
def status_and_history(rng, ctx):
    dim, kind, func, sim, kw, rec, res = setup(rng, ctx)
    maxfev = kw.get('maxfev', 200 * dim)
    maxiter = kw.get('maxiter', 200 * dim)
    hist = np.asarray(res.simplex_history)
    final = hist[-1]
    ffinal = np.array([func(x) for x in final])
    cutoff = kw.get('fprime_cutoff')

    def fprime(simplex, best):
        edge = max(np.linalg.norm(a - b) for a, b in itertools.combinations(simplex, 2))
        with np.errstate(all='ignore'):
            return best / np.float64(edge)

    def tolerances(simplex, fvals):
        with np.errstate(all='ignore'):
            return bool(np.max(np.abs(simplex[1:] - simplex[0])) <= kw['xtol'] and np.max(np.abs(fvals[0] - fvals[1:])) <= kw['ftol'])

    def over(simplex, fvals):
        return None if cutoff is None else bool(fprime(simplex, fvals[0]) > cutoff)

    def borderline(simplex, fvals):
        if cutoff is None:
            return False
        val = fprime(simplex, fvals[0])
        return not abs(val - cutoff) > 1e-9 * abs(cutoff)

    expect(res.success == (res.status == 0), 'success does not match status', success=res.success, status=res.status)
    expect(res.status in (0, 1, 2, 3), 'unknown status', status=res.status)
    expect(isinstance(res.message, str) and res.message, 'no message', message=res.message)
    used_fev, used_iter = res.num_fev >= maxfev, res.num_iter >= maxiter
    order = np.argsort(ffinal, kind='stable')
    expect(bool(np.all(ffinal[:-1] <= ffinal[1:])), 'final simplex is not sorted', values=ffinal)
    if not borderline(final, ffinal):
        should = tolerances(final, ffinal) and not used_fev and not used_iter and not over(final, ffinal)
        expect(bool(res.success) == bool(should), 'success reported wrongly', success=res.success, tolerances=tolerances(final, ffinal),
               evaluations=(res.num_fev, maxfev), iterations=(res.num_iter, maxiter), over_cutoff=over(final, ffinal))
        if res.status == 1:
            expect(used_fev, 'status names the evaluation budget, which is not used up', num_fev=res.num_fev, maxfev=maxfev)
        if res.status == 2:
            expect(used_iter, 'status names the iteration budget, which is not used up', num_iter=res.num_iter, maxiter=maxiter)
        if res.status == 3:
            expect(over(final, ffinal), 'status names the derivative cutoff, which is not exceeded', estimate=fprime(final, ffinal[0]), cutoff=cutoff)
        expect(used_fev or used_iter or over(final, ffinal) or tolerances(final, ffinal), 'stopped without a reason')
    words = {0: 'success', 1: 'evaluations', 2: 'iterations', 3: 'derivative'}
    expect(words[int(res.status)] in res.message, 'message does not name the reason', status=res.status, message=res.message)
    expect(res.num_fev <= max(dim + 1, maxfev - 1 + dim + 2), 'evaluation budget exceeded by more than one step', num_fev=res.num_fev, maxfev=maxfev)
    expect(res.num_iter <= max(1, maxiter), 'iteration budget exceeded', num_iter=res.num_iter, maxiter=maxiter)
    expect(res.num_fev <= dim + 1 + (res.num_iter - 1) * (dim + 2), 'a step costs too many evaluations', num_fev=res.num_fev, num_iter=res.num_iter)
    if kw.get('keep_history', True):
        fhist = np.asarray(res.fun_simplex_history)
        expect(hist.shape == (res.num_iter, dim + 1, dim) and fhist.shape == (res.num_iter, dim + 1),
               'the history does not have one entry per iteration', simplex=hist.shape, values=fhist.shape, num_iter=res.num_iter)
        for k in range(len(hist)):
            vals = np.array([func(x) for x in hist[k]])
            expect(np.array_equal(vals, fhist[k]), 'recorded values do not match the recorded vertices', iteration=k, values=fhist[k], actual=vals)
            expect(bool(np.all(vals[:-1] <= vals[1:])), 'recorded values are not sorted', iteration=k, values=vals)
            if k:
                expect(vals[0] <= fhist[k - 1][0], 'the lowest value increased', iteration=k, before=fhist[k - 1][0], after=vals[0])
            if k < len(hist) - 1 and not borderline(hist[k], vals):
                expect(not tolerances(hist[k], vals) and not over(hist[k], vals), 'went on although a stopping criterion was met', iteration=k, simplex=hist[k], values=vals)
        expect(sorted(map(tuple, hist[0])) == sorted(map(tuple, sim)), 'the history does not start with the initial simplex', first=hist[0], initial=sim)
    else:
        expect(hist.shape[0] >= 1 and hist.shape[1:] == (dim + 1, dim), 'the final simplex is not kept', shape=hist.shape)


# ------------------------------------------------------------------- C15
def patch_points(dim):
    return None


@case('C15', weight=3)
def two_stages(rng, ctx):
    run = need(*RM)
    dim = int(rng.integers(1, 4))
    kind, func = gen_function(rng, dim)
    sim = gen_simplex(rng, dim)
    kw = gen_args(rng, dim)
    keep = bool(rng.integers(4))
    kw['keep_history'] = keep
    if keep and rng.integers(2):
        kw.pop('keep_history')
    use = bool(rng.integers(4))
    center, width = rng.normal(size=dim), float(np.exp(rng.uniform(-2, 1)))
    pkind = int(rng.integers(4))

    def potential(x):
        near = np.linalg.norm(np.asarray(x) - center) < width
        if pkind == 0:
            return float('inf') if near else 0
        if pkind == 1:
            return 1e3 if near else 0
        if pkind == 3:
            return -2.5 - float(near)
        return 1.5 * float(near) + .5

    ctx.input(dim=dim, function=kind, initial_simplex=sim, kwargs=kw, potential=(use, pkind, center, width))
    rec = Recorder(func)
    pot_calls = []

    def counted(x):
        pot_calls.append(len(rec.calls))
        return potential(x)

    given = dict(kw) if rng.integers(2) else types.MappingProxyType(dict(kw))
    res = run_coro(call(run, rec, initial_simplex=sim, fake_potential=counted if use else None, nelder_mead_kwargs=given))
    # reference: the stages run separately with the same minimizer, which
    # keeps the history
    kw = dict(kw, keep_history=True)
    root = need(*NM)

    async def one(f, s, **k):
        return await root(f, initial_simplex=s, **k)

    if not use:
        rec2 = Recorder(func)
        ref = run_coro(one(rec2, sim, **kw))
        stages = [ref]
    else:
        async def with_pot(x):
            return func(np.array(x, dtype=float)) + potential(x)

        async def plain(x):
            return func(np.array(x, dtype=float))

        first = run_coro(one(with_pot, sim, **dict(kw, ftol=float('inf'))))
        last = np.asarray(first.simplex_history)[-1]
        start = last[0] + 1.5 * (last - last[0])
        # the same up to rounding: the points which were evaluated
        begun = [x for x, _ in rec.calls[first.num_fev:first.num_fev + len(start)]]
        if np.shape(begun) == start.shape:
            orders = [o for o in itertools.permutations(range(len(start))) if np.allclose(np.array(begun)[list(o)], start, rtol=1e-12, atol=1e-12)]
            if orders:
                start = np.array(begun)[list(orders[0])]
        ref = run_coro(one(plain, start, **kw))
        stages = [first, ref]

    def eq(a, b):
        return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float)) or np.allclose(
            np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-9, atol=1e-12, equal_nan=True)

    n1 = stages[0].num_fev if use else 0
    expect(eq(res.value, func(np.asarray(res.pos, dtype=float))), 'the reported value is not the gap at the reported position', pos=res.pos, value=res.value,
           gap=func(np.asarray(res.pos, dtype=float)))
    if use:
        expect(not any(c > n1 for c in pot_calls), 'the potential was evaluated in the second minimization', evaluations=pot_calls[-3:], first_stage=n1)
    expect(eq(res.pos, ref.pos) and eq(res.value, ref.value), 'position or value are not those of the last minimization', got=(res.pos, res.value), expected=(ref.pos, ref.value))
    expect(bool(res.success) == bool(ref.success) and res.status == ref.status and res.message == ref.message, 'status differs from the last minimization',
           got=(res.success, res.status, res.message), expected=(ref.success, ref.status, ref.message))
    expect(res.num_fev == sum(s.num_fev for s in stages) == len(rec.calls), 'evaluations are not the sum of both minimizations', got=res.num_fev, stages=[s.num_fev for s in stages], calls=len(rec.calls))
    expect(res.num_iter == sum(s.num_iter for s in stages), 'iterations are not the sum of both minimizations', got=res.num_iter, stages=[s.num_iter for s in stages])
    if not keep:
        hist = np.concatenate([np.asarray(s.simplex_history)[-1:] for s in stages])
        expect(np.shape(res.simplex_history) == hist.shape and eq(res.simplex_history, hist), 'the simplices kept are not the last ones of both minimizations', got=res.simplex_history, expected=hist)
        return
    hist = np.concatenate([np.asarray(s.simplex_history) for s in stages])
    fhist = np.concatenate([np.asarray(s.fun_simplex_history) for s in stages])
    expect(np.shape(res.simplex_history) == hist.shape and eq(res.simplex_history, hist), 'simplex history is not that of both minimizations', shape=np.shape(res.simplex_history), expected=hist.shape)
    expect(np.shape(res.fun_simplex_history) == fhist.shape and eq(res.fun_simplex_history, fhist), 'value history is not that of both minimizations')
