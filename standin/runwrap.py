"""C30: the synchronous wrapper."""
import asyncio
import concurrent.futures
import queue
import threading
import time
import warnings

import numpy as np

from .common import case, expect, need, call, Skip, show, join
from .ctrl import gen_gap

import nodefinder.search as search


class _Err(Exception):
    pass


class _BaseErr(BaseException):
    pass


EXC = [None, None, _Err, ValueError, KeyError, asyncio.CancelledError, SystemExit, KeyboardInterrupt, RuntimeError, StopAsyncIteration, _BaseErr, EOFError]


def make_exc(cls, text):
    exc = cls(text)
    # of which the arguments do not tell everything
    exc.information = object()
    return exc


def alike(one, two):
    if isinstance(two, asyncio.CancelledError):
        return type(one) is type(two)
    return type(one) is type(two) and one.args == two.args and vars(one) == vars(two)


def outcome(fct):
    try:
        return 'result', fct()
    except BaseException as exc:  # pylint: disable=broad-except
        if type(exc).__name__ == 'CaseTimeout':
            raise
        return 'exception', exc


CONTEXTS = ['no loop', 'idle loop', 'running loop', 'thread', 'thread with idle loop', 'thread with running loop']


def in_context(context, fct):
    """Outcome of fct() in the context, and the loop of the caller (or None)."""
    if context.startswith('thread'):
        res = []

        def target():
            res.append(in_context({'thread': 'no loop', 'thread with idle loop': 'idle loop', 'thread with running loop': 'running loop'}[context], fct))

        thread = threading.Thread(target=target, daemon=True)
        thread.start()
        expect(join(thread, 30), 'the search does not return', context=context)
        return res[0]
    loop = None
    if context == 'no loop':
        asyncio.set_event_loop(None)
        return outcome(fct), None
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    if context == 'idle loop':
        return outcome(fct), loop

    async def main():
        return outcome(fct)

    return loop.run_until_complete(main()), loop


def usable(loop):
    async def nothing():
        return 5

    return not loop.is_closed() and loop.run_until_complete(nothing()) == 5


class _SlowJoin(Exception):
    pass


@case('C30', weight=3)
def wrapper(rng, ctx):
    """The wrapper with a given outcome of the asynchronous search."""
    mod = __import__('nodefinder.search._run', fromlist=['x'])
    real = need('nodefinder.search._run', 'run_async')
    context = CONTEXTS[int(rng.integers(len(CONTEXTS)))]
    exc_type = EXC[int(rng.integers(len(EXC)))]
    exc = None if exc_type is None else make_exc(exc_type, 'outcome')
    awaits = int(rng.integers(0, 3))
    twice = bool(rng.integers(2))
    value = [object(), None, [], 0, ValueError('a result')][int(rng.integers(5))]
    args = tuple(object() for _ in range(int(rng.integers(1, 3))))
    kwargs = {k: object() for k in ['limits', 'save_file', 'periodic', 'feature_size'][:int(rng.integers(0, 5))]}
    ctx.input(context=context, outcome=exc_type or value, awaits=awaits, twice=twice, args=len(args), kwargs=sorted(kwargs))
    calls = []

    async def fake(*a, **k):
        calls.append((a, k))
        for _ in range(awaits):
            await asyncio.sleep(0)
        if exc is not None:
            raise exc
        return value

    def both():
        return [outcome(lambda: search.run(*args, **kwargs)) for _ in range(2)]

    hook = threading.excepthook
    threading.excepthook = lambda *a: None
    mod.run_async = fake
    try:
        (kind, res), loop = in_context(context, both if twice else (lambda: search.run(*args, **kwargs)))
        if twice and kind == 'result':
            one, two = res
            expect(len(calls) == 2 and one[0] == two[0] and (two[1] is one[1] or type(one[1]) is type(two[1])), 'a second search in the same context ends differently', first=one, second=two)
            kind, res = one
            del calls[1:]
        expect(calls, 'the asynchronous search was not started')
        expect(calls == [(args, kwargs)], 'the asynchronous search was started with other arguments or more than once', calls=len(calls), kwargs=sorted(calls[0][1]))
        if exc is None:
            expect(kind == 'result' and res is value, 'another result was returned', kind=kind, result=res, expected=value)
        else:
            expect(kind == 'exception' and (res is exc or alike(res, exc)), 'another exception was raised', kind=kind, result=res, expected=exc)
        if loop is not None:
            expect(usable(loop), 'the event loop of the caller is not usable any more')
            loop.close()
    finally:
        mod.run_async = real
        threading.excepthook = hook
        asyncio.set_event_loop(None)


@case('C30', weight=1, maxn=40)
def slow_search(rng, ctx):
    """Any timeout of the caller is over before the search ends."""
    mod = __import__('nodefinder.search._run', fromlist=['x'])
    real = need('nodefinder.search._run', 'run_async')
    exc_type = EXC[int(rng.integers(len(EXC)))]
    exc = None if exc_type is None else make_exc(exc_type, 'outcome')
    running = bool(rng.integers(3))
    ctx.input(outcome=exc_type, running_loop=running)
    release, value, caller, res = threading.Event(), object(), [], []

    async def fake(*a, **k):
        while not release.is_set():
            await asyncio.sleep(.002)
        if exc is not None:
            raise exc
        return value

    def early(owner, name, position, end):
        orig = getattr(owner, name)

        def wait(self, *args, **kw):
            given = kw.get('timeout', args[position] if len(args) > position else None)
            if given is None or threading.get_ident() not in caller or release.is_set():
                return orig(self, *args, **kw)
            time.sleep(.001)
            return end(self)

        return owner, name, orig, wait

    def empty(q):
        try:
            return q.get_nowait()
        except queue.Empty:
            raise

    def unfinished(fut):
        raise concurrent.futures.TimeoutError()

    def target():
        caller.append(threading.get_ident())
        res.append(in_context('running loop' if running else 'no loop', lambda: search.run(None)))

    waits = [early(threading.Thread, 'join', 0, lambda t: None), early(queue.Queue, 'get', 1, empty), early(concurrent.futures.Future, 'result', 0, unfinished)]
    real_join = threading.Thread.join
    hook = threading.excepthook
    threading.excepthook = lambda *a: None
    mod.run_async = fake
    timer = threading.Timer(.1, release.set)
    try:
        for owner, name, orig, wait in waits:
            setattr(owner, name, wait)
        thread = threading.Thread(target=target, daemon=True)
        timer.start()
        thread.start()
        real_join(thread, 10)
        expect(not thread.is_alive(), 'the search has ended, but the call does not return', running_loop=running)
        kind, got = res[0][0]
        if exc is None:
            expect(kind == 'result' and got is value, 'another result was returned', kind=kind, result=got)
        else:
            expect(kind == 'exception' and (got is exc or alike(got, exc)), 'another exception was raised', kind=kind, result=got, expected=exc)
        if res[0][1] is not None:
            expect(not res[0][1].is_closed(), 'the event loop of the caller was closed')
            res[0][1].close()
    finally:
        release.set()
        timer.cancel()
        for owner, name, orig, wait in waits:
            setattr(owner, name, orig)
        mod.run_async = real
        threading.excepthook = hook


@case('C30', weight=1)
def whole_search(rng, ctx):
    context = CONTEXTS[int(rng.integers(len(CONTEXTS)))]
    dim = 1
    kind, roots, offset, gap = gen_gap(rng, np.zeros(1), np.ones(1), True)
    fail_at = int(rng.integers(1, 30)) if rng.integers(2) else None
    exc = make_exc(EXC[int(rng.integers(2, len(EXC)))], 'in gap function')
    if isinstance(exc, StopAsyncIteration):
        exc = make_exc(_Err, 'in gap function')
    count = [0]
    is_async = bool(rng.integers(2))

    def value(x):
        count[0] += 1
        if fail_at is not None and count[0] >= fail_at:
            raise exc
        return gap(x)

    async def coro(x):
        await asyncio.sleep(0)
        return value(x)

    kw = dict(limits=[(0, 1)], initial_mesh_size=2, feature_size=.2, refinement_stencil=None, nelder_mead_kwargs=dict(maxfev=20))
    ctx.input(context=context, gap=(kind, roots, offset), fail_at=fail_at, exception=exc, is_async=is_async, **kw)
    hook = threading.excepthook
    threading.excepthook = lambda *a: None
    try:
        (got, res), loop = in_context(context, lambda: search.run(coro if is_async else value, **kw))
        if fail_at is None:
            expect(got == 'result', 'the search failed', result=res)
            count[0] = 0
            ref = asyncio.new_event_loop()
            try:
                expected = ref.run_until_complete(search.run_async(coro if is_async else value, **kw))
            finally:
                ref.close()
            a = sorted((tuple(np.round(r.pos, 12)), float(r.value)) for r in res.minimization_results)
            b = sorted((tuple(np.round(r.pos, 12)), float(r.value)) for r in expected.minimization_results)
            expect(a == b, 'the result differs from the asynchronous one', sync=a, asynchronous=b)
        else:
            expect(got == 'exception' and alike(res, exc), 'the exception of the search is not raised', kind=got, result=res, expected=exc)
        if loop is not None:
            # other tasks of the search may raise exit requests again if the loop goes on
            expect(not loop.is_closed() and (fail_at is not None or usable(loop)), 'the event loop of the caller is not usable any more')
            loop.close()
    finally:
        threading.excepthook = hook
        asyncio.set_event_loop(None)
