"""
Run-time contract checks of the real code on generated inputs (the bounded
stand-in, also used to replay what a failed proof obligation suggests).

A *case* is a function ``case(rng, ctx)`` registered for a property.  It makes
one input from ``rng`` (a numpy Generator seeded from the seed, the property,
the case name and the index - so that every case can be repeated), runs the
real code and raises ``Violation`` if the property does not hold for it.
``Skip`` is raised if the case does not apply, for example because a
non-public function it calls does not exist any more.
"""
import contextlib
import hashlib
import importlib
import inspect
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np

CASES = {}


class Violation(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.data = data


class Skip(Exception):
    pass


def case(prop, weight=1, once=False, maxn=None):
    """Register a case. ``once``: deterministic, run a single time."""

    def wrap(fct):
        CASES.setdefault(prop, []).append((fct.__name__, fct, weight, once, maxn))
        return fct

    return wrap


def make_rng(seed, prop, name, idx):
    h = hashlib.sha256('{}|{}|{}|{}'.format(seed, prop, name, idx).encode()).digest()
    val = int.from_bytes(h[:8], 'little')
    random.seed(val)
    return np.random.default_rng(val)


def show(x, limit=400):
    try:
        txt = repr(x)
    except Exception as exc:  # pragma: no cover
        txt = '<unprintable {}: {}>'.format(type(x).__name__, exc)
    txt = ' '.join(txt.split())
    return txt if len(txt) <= limit else txt[:limit] + '...'


class Ctx:
    """What a case may use to describe its input and to note coverage."""

    def __init__(self):
        self.desc = {}
        self.nontrivial = True

    def input(self, **kw):
        self.desc.update({k: show(v) for k, v in kw.items()})

    def trivial(self):
        self.nontrivial = False


def need(module, name):
    """A non-public object of the code under test; Skip if it is not there."""
    try:
        mod = importlib.import_module(module)
    except ImportError as exc:
        raise Skip('no module {}'.format(module)) from exc
    obj = mod
    for part in name.split('.'):
        try:
            obj = getattr(obj, part)
        except AttributeError as exc:
            raise Skip('no {}.{}'.format(module, name)) from exc
    return obj


def bind(func, *args, **kwargs):
    """Skip if a non-public function does not take these arguments any more."""
    try:
        sig = inspect.signature(func)
    except (TypeError, ValueError):
        return
    try:
        sig.bind(*args, **kwargs)
    except TypeError as exc:
        raise Skip('signature of {} changed: {}'.format(func, exc)) from exc


def call(func, *args, **kwargs):
    bind(func, *args, **kwargs)
    return func(*args, **kwargs)


def attr(obj, name):
    """Non-public attribute of an object."""
    try:
        return getattr(obj, name)
    except AttributeError as exc:
        raise Skip('no attribute {} of {}'.format(name, type(obj))) from exc


def expect(cond, msg, **data):
    if not cond:
        raise Violation(msg, **{k: show(v) for k, v in data.items()})


def close(a, b, scale=1., tol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b) <= tol * np.asarray(scale)) | (a == b)))


# ---------------------------------------------------------------- generators
def gen_limits(rng, dim, exact=False, unit=None):
    """Limits of a box with positive side lengths, sometimes reversed."""
    kind = rng.integers(4) if unit is None else (0 if unit else rng.integers(1, 4))
    res = []
    for _ in range(dim):
        if exact:
            lower = float(rng.integers(-8, 9)) / 4 if kind else 0.
            size = float(2.**rng.integers(-2, 4))
        else:
            lower = float(rng.normal() * 3.) if kind else 0.
            size = float(np.exp(rng.uniform(-2, 2))) if kind else 1.
        pair = (lower, lower + size)
        if kind == 3 and rng.integers(3) == 0:
            pair = pair[::-1]
        res.append(pair)
    if not exact and kind == 2 and rng.integers(4) == 0:
        res = [(int(np.floor(a)), int(np.floor(a)) + int(rng.integers(1, 4))) for a, _ in res]
    return res


def bounds(limits):
    arr = np.array([sorted(x) for x in limits], dtype=float)
    return arr[:, 0], arr[:, 1]


def gen_pos(rng, limits, exact=False, spread=2, n=None):
    """A position (or stack of n positions) in or around the box."""
    lower, upper = bounds(limits)
    size = upper - lower
    shape = (len(lower), ) if n is None else (n, len(lower))
    if exact:
        frac = rng.integers(-32 * spread, 32 * spread + 1, size=shape) / 32.
    else:
        kind = rng.integers(4)
        if kind == 0:
            frac = rng.random(shape)
        elif kind == 1:
            frac = rng.uniform(-spread, spread + 1, size=shape)
        elif kind == 2:
            frac = rng.choice([0., 1., .5, .25, 1e-12, 1 - 1e-12, -1e-12], size=shape)
        else:
            frac = np.where(rng.random(shape) < .5, rng.random(shape), rng.integers(-spread, spread + 1, size=shape))
    return lower + frac * size


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        yield


class CaseTimeout(BaseException):
    pass


class Clock:
    """
    Ends a case after a number of ticks of one second in which this process
    was awake (so that a pause of the whole machine counts as one second).
    """
    left = 0

    @classmethod
    def start(cls, seconds):
        import signal
        cls.left = seconds
        signal.signal(signal.SIGALRM, cls.tick)
        signal.setitimer(signal.ITIMER_REAL, 1, 1)

    @classmethod
    def stop(cls):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)

    @classmethod
    def tick(cls, _signum, _frame):
        cls.left -= 1
        if cls.left <= 0:
            cls.stop()
            raise CaseTimeout()


def join(thread, seconds):
    """Wait for a thread, by ticks as above; has it ended?"""
    for _ in range(seconds):
        thread.join(1)
        if not thread.is_alive():
            return True
    return False


def run_one(prop, name, fct, seed, idx, limit=40):
    """Returns (status, ctx, detail). status: ok, skip, violation."""
    rng = make_rng(seed, prop, name, idx)
    ctx = Ctx()
    Clock.start(limit)
    try:
        with quiet():
            fct(rng, ctx)
        return 'ok', ctx, None
    except Skip as exc:
        return 'skip', ctx, str(exc)
    except Violation as exc:
        return 'violation', ctx, dict(message=str(exc), **exc.data)
    except CaseTimeout:
        if limit < 100:  # once more, with more time
            return run_one(prop, name, fct, seed, idx, limit=2 * limit + 40)
        return 'violation', ctx, dict(message='no result after {} s'.format(limit))
    except BaseException as exc:  # the code under test raised on a valid input
        tb = traceback.extract_tb(exc.__traceback__)
        in_repo = [f for f in tb if 'nodefinder' in f.filename and '/verif/' not in f.filename]
        detail = dict(
            message='unexpected {}: {}'.format(type(exc).__name__, show(str(exc))),
            traceback=[
                '{}:{} {}'.format(f.filename, f.lineno, f.name) for f in tb[-6:]
            ]
        )
        if in_repo:
            return 'violation', ctx, detail
        return 'error', ctx, detail
    finally:
        Clock.stop()


def confirmed(prop, name, fct, seed, idx):
    """Does the case fail again (in one of three tries)?"""
    for _ in range(3):
        status, ctx, detail = run_one(prop, name, fct, seed, idx)
        if status == 'violation':
            return ctx, detail
    return None


def run_property(prop, seed, budget, out=None, max_violations=3):
    """Run the cases of a property for about ``budget`` seconds."""
    t_end = time.time() + budget
    stats = dict(evaluations=0, nontrivial=0, skipped=0, errors=0)
    per_case = {}
    distinct = set()
    samples = []
    violations = []
    notes = dict(LOAD_NOTES)
    cases = CASES.get(prop, [])
    active = [(name, fct, weight, once, maxn) for name, fct, weight, once, maxn in cases]
    counters = {name: 0 for name, *_ in active}
    spent = {name: 0. for name, *_ in active}
    skips_in_row = {name: 0 for name, *_ in active}
    while active and len(violations) < max_violations:
        if time.time() > t_end and all(counters[a[0]] > 0 for a in active):
            break
        # the case that used the smallest share of its time
        item = min(active, key=lambda a: (counters[a[0]] > 0, spent[a[0]] / a[2]))
        name, fct, weight, once, maxn = item
        idx = counters[name]
        counters[name] += 1
        t0 = time.time()
        status, ctx, detail = run_one(prop, name, fct, seed, idx)
        spent[name] += time.time() - t0 + 1e-5
        if status == 'skip':
            stats['skipped'] += 1
            skips_in_row[name] += 1
            notes.setdefault('skip ' + name, detail)
            if skips_in_row[name] > 25:
                active.remove(item)
                continue
        elif status == 'error':
            stats['errors'] += 1
            notes.setdefault('error ' + name, detail)
            if stats['errors'] > 20:
                active.remove(item)
                continue
        else:
            skips_in_row[name] = 0
            stats['evaluations'] += 1
            per_case[name] = per_case.get(name, 0) + 1
            key = hashlib.md5((name + json.dumps(ctx.desc, sort_keys=True)).encode()).digest()
            if ctx.nontrivial and key not in distinct:
                distinct.add(key)
                stats['nontrivial'] += 1
            if len(samples) < 6 and per_case[name] <= 2:
                samples.append(dict(case=name, index=idx, **ctx.desc))
            if status == 'violation':
                # (what does not return was tried twice already, and takes long)
                again = True if 'no result after' in str(detail.get('message')) else confirmed(prop, name, fct, seed, idx)
                if again is None:
                    notes['not reproduced {} {}'.format(name, idx)] = detail
                    continue
                violations.append(
                    dict(property=prop, case=name, index=idx, seed=seed, input=ctx.desc, detail=detail)
                )
                if item in active:
                    active.remove(item)
                if again is True:
                    break
                continue
        if once or (maxn is not None and counters[name] >= maxn):
            if item in active:
                active.remove(item)
    res = dict(
        property=prop, stats=stats, per_case=per_case, samples=samples, violations=violations, notes=notes
    )
    return res


MODULES = [
    'coord', 'cells', 'queues', 'minim', 'mesh', 'ctrl', 'persist', 'ident', 'plots', 'runwrap'
]


LOAD_NOTES = {}


def load_all():
    for mod in MODULES:
        if os.path.exists(os.path.join(os.path.dirname(__file__), mod + '.py')):
            try:
                importlib.import_module('standin.' + mod)
            except ImportError as exc:  # the layout of the code has changed
                LOAD_NOTES['import ' + mod] = str(exc)
