"""
C30: the synchronous wrapper, against contracts of asyncio, threading and queue.

Every context of the caller, every outcome of the search (each class of
exceptions) and every relative speed of the second thread is a path.
"""
import asyncio as real_asyncio
import inspect
import queue as real_queue
import types

import z3

from pyvc import core, load
from . import spec
from .coord import call

MOD = 'nodefinder.search._run'
TRUST = [
    'contract of asyncio: get_event_loop gives the loop of the calling thread or raises RuntimeError if there is none; run_until_complete gives the result or raises the exception of the coroutine, and RuntimeError if a loop is running in this thread or the loop is closed',
    'contract of threading.Thread: the target runs once after start, at any time until join returns; an exception of the target ends the thread only',
    'contract of queue.Queue: first in, first out; get waits for an item',
]


class OwnError(Exception):
    pass


class OwnBaseError(BaseException):
    pass


def exception_classes():
    res = []
    todo = [BaseException]
    while todo:
        cls = todo.pop()
        for sub in cls.__subclasses__():
            if sub.__module__ in ('builtins', ) and sub not in res and sub is not RecursionError:
                res.append(sub)
                todo.append(sub)
    for cls in (real_asyncio.CancelledError, real_asyncio.TimeoutError, real_asyncio.InvalidStateError, real_queue.Empty, real_queue.Full, OwnError, OwnBaseError):
        if cls not in res:
            res.append(cls)
    made = []
    for cls in res:
        try:
            made.append((cls, cls('outcome')))
        except TypeError:
            continue
    return sorted([cls for cls, _ in made if not issubclass(cls, Warning) or cls is Warning], key=lambda c: c.__name__)


class Result:
    """A result of the search: nothing is known about it, also not its truth value."""

    def __bool__(self):
        return core.cur().choose('truth of the result')

    def __eq__(self, other):
        if self is other:
            return True
        return core.cur().choose('equality of the result')

    __hash__ = object.__hash__


class Hang(Exception):
    """The caller waits for ever."""


class Env:
    def __init__(self, vc, context):
        self.vc, self.context = vc, context
        self.calls = []
        self.threads = []
        self.in_thread = False
        self.running = {False: context == 'running', True: False}  # by "in the second thread"
        self.caller_loop = Loop(self, running=context == 'running') if context in ('idle', 'running') else None
        self.current_loop = self.caller_loop
        self.thread_loop = None
        self.outcome = ('result', Result())
        self.loops = []

    def second(self):
        """Another search in the same context."""
        self.calls, self.threads = [], []

    # -- the search
    def run_async(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return Coroutine(self)

    # -- asyncio
    def asyncio(self):
        mod = types.ModuleType('asyncio')
        mod.get_event_loop = self.get_event_loop
        mod.get_running_loop = self.get_running_loop
        mod._get_running_loop = lambda: self.get_running_loop() if self.running[self.in_thread] else None
        mod.new_event_loop = self.new_event_loop
        mod.set_event_loop = self.set_event_loop
        mod.run = self.asyncio_run
        mod.iscoroutine = lambda x: isinstance(x, Coroutine)
        for name in ('CancelledError', 'TimeoutError', 'InvalidStateError'):
            setattr(mod, name, getattr(real_asyncio, name))
        mod.__getattr__ = unsupported('asyncio')
        return mod

    def get_event_loop(self):
        loop = self.thread_loop if self.in_thread else self.current_loop
        if loop is None:
            raise RuntimeError('There is no current event loop')
        return loop

    def get_running_loop(self):
        if not self.running[self.in_thread] or self.in_thread:
            raise RuntimeError('no running event loop')
        return self.caller_loop

    def new_event_loop(self):
        loop = Loop(self)
        self.loops.append(loop)
        return loop

    def set_event_loop(self, loop):
        if loop is not None and not isinstance(loop, Loop):
            raise core.Unsupported('set_event_loop')
        if self.in_thread:
            self.thread_loop = loop
        else:
            self.current_loop = loop

    def asyncio_run(self, main, **kw):
        if kw or not isinstance(main, Coroutine):
            raise core.Unsupported('asyncio.run')
        if self.running[self.in_thread]:
            raise RuntimeError('asyncio.run() cannot be called from a running event loop')
        if not self.in_thread and self.current_loop is not None:
            raise core.Unsupported('asyncio.run removes the loop of the caller')
        return main.result()

    # -- threads
    def threading(self):
        mod = types.ModuleType('threading')
        mod.Thread = lambda *args, **kw: Thread(self, *args, **kw)
        mod.__getattr__ = unsupported('threading')
        return mod

    def queue(self):
        mod = types.ModuleType('queue')
        mod.Queue = mod.SimpleQueue = mod.LifoQueue = lambda *args, **kw: Queue(self, *args, **kw)
        mod.Empty, mod.Full = real_queue.Empty, real_queue.Full
        mod.__getattr__ = unsupported('queue')
        return mod

    def progress(self):
        """The other thread may or may not run here."""
        if self.in_thread:
            return
        for t in self.threads:
            if t.state == 'started' and self.vc.choose('the thread runs now'):
                t.run_target()

    def wait(self):
        """The caller waits: the other thread runs."""
        if self.in_thread:
            raise core.Unsupported('the second thread waits')
        for t in self.threads:
            if t.state == 'started':
                t.run_target()


def unsupported(what):

    def get(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('{}.{}'.format(what, name))

    return get


class Coroutine:
    def __init__(self, env):
        self.env = env
        self.used = False

    def result(self):
        if self.used:
            raise RuntimeError('cannot reuse already awaited coroutine')
        self.used = True
        kind, value = self.env.outcome
        if kind == 'exception':
            raise value
        return value

    def close(self):
        raise core.Unsupported('the coroutine is closed')

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('coroutine.' + name)


class Loop:
    def __init__(self, env, running=False):
        self.env = env
        self.closed = False
        self.own = running

    def is_running(self):
        return self.own

    def is_closed(self):
        return self.closed

    def run_until_complete(self, what):
        if not isinstance(what, Coroutine):
            raise core.Unsupported('another awaitable')
        if self.closed:
            raise RuntimeError('Event loop is closed')
        if self.own:
            raise RuntimeError('This event loop is already running')
        if self.env.running[self.env.in_thread]:
            raise RuntimeError('Cannot run the event loop while another loop is running')
        return what.result()

    def close(self):
        if self.own:
            raise RuntimeError('Cannot close a running event loop')
        self.closed = True

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('loop.' + name)


class Thread:
    def __init__(self, env, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.env = env
        self.target, self.args, self.kwargs = target, tuple(args), dict(kwargs or {})
        self.state = 'new'
        env.threads.append(self)

    def start(self):
        if self.state != 'new':
            raise RuntimeError('threads can only be started once')
        self.state = 'started'
        self.env.progress()

    def run_target(self):
        self.state = 'ended'
        self.env.in_thread = True
        try:
            self.target(*self.args, **self.kwargs)
        except BaseException as exc:  # pylint: disable=broad-except
            if core.exceptional(exc) or isinstance(exc, Hang):
                raise
        finally:
            self.env.in_thread = False
            self.env.thread_loop = None

    def join(self, timeout=None):
        if self.state == 'new':
            raise RuntimeError('cannot join thread before it is started')
        if timeout is not None:
            # it can return before the thread has ended
            self.env.progress()
        else:
            self.env.wait()

    def is_alive(self):
        self.env.progress()
        return self.state == 'started'

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('thread.' + name)


class Queue:
    def __init__(self, env, maxsize=0):
        self.env = env
        self.items = []
        if maxsize:
            raise core.Unsupported('a queue of limited size')

    def put(self, item, block=True, timeout=None):
        self.items.append(item)

    put_nowait = put

    def get(self, block=True, timeout=None):
        self.env.progress()
        if not self.items and block and timeout is None:
            self.env.wait()
            if not self.items:
                raise Hang('nothing is ever put into the queue')
        if not self.items:
            raise real_queue.Empty
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        self.env.progress()
        return not self.items

    def qsize(self):
        self.env.progress()
        return len(self.items)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('queue.' + name)


CONTEXTS = ['none', 'idle', 'running']


def loaded(env):
    loader = load.Loader({
        'asyncio': env.asyncio(), 'threading': env.threading(), 'queue': env.queue(),
        'nodefinder.search._controller': types.SimpleNamespace(Controller=None),
    })
    mod = loader.load(MOD)
    if not inspect.iscoroutinefunction(getattr(mod, 'run_async', None)):
        raise core.Unsupported('no run_async')
    mod.run_async = env.run_async
    return loader


ARGS = [((0, ), ()), ((0, ), ('limits', )), ((), ('gap_fct', 'periodic', 'save_file')), ((), ()), ((0, 1), ())]


def called(vc, env, num_args=(0, ), names=('limits', 'load')):
    loader = loaded(env)
    args = tuple(Result() for _ in num_args)
    kwargs = {name: Result() for name in names}
    try:
        got = ('result', loader.get(MOD, 'run')(*args, **kwargs))
    except Hang as exc:
        vc.prove('the call returns when the search ends', z3.BoolVal(False), detail=str(exc))
        return None
    except BaseException as exc:  # pylint: disable=broad-except
        if core.exceptional(exc):
            raise
        got = ('exception', exc)
    vc.prove('the call returns when the search ends', z3.BoolVal(True))
    ok = len(env.calls) == 1 and len(env.calls[0][0]) == len(args) and all(x is y for x, y in zip(env.calls[0][0], args)) and set(env.calls[0][1]) == set(kwargs) and all(env.calls[0][1][k] is kwargs[k] for k in kwargs)
    vc.prove('the search is run exactly once, with the arguments of the call', z3.BoolVal(ok), detail='{} calls'.format(len(env.calls)))
    if env.caller_loop is not None:
        vc.prove('the event loop of the caller stays open', z3.BoolVal(not env.caller_loop.closed))
    return got


@spec('C30', functions=[MOD + '.run', MOD + '._run_in_thread'], seconds=60, trusted=TRUST, reals=False, scope='every context, any result, every relative speed of the thread')
def result_returned(vc):
    env = Env(vc, CONTEXTS[vc.pick(3)])
    which = vc.pick(4)
    if which < 3:
        # results which are easily taken for something else
        env.outcome = ('result', [None, OwnError('a result'), StopIteration('a result')][which])
    got = called(vc, env, *ARGS[vc.pick(len(ARGS))])
    for again in (False, True):
        if got is not None:
            vc.prove('the result of the search is returned', z3.BoolVal(got[0] == 'result' and got[1] is env.outcome[1]), detail=repr(got)[:200])
            if not again:
                env.second()
                got = called(vc, env, *ARGS[1])


@spec('C30', functions=[MOD + '.run', MOD + '._run_in_thread'], seconds=100, trusted=TRUST, reals=False, scope='every context, every class of exceptions (except RecursionError), every relative speed of the thread')
def exception_raised(vc):
    classes = exception_classes()
    env = Env(vc, CONTEXTS[vc.pick(3)])
    cls = classes[vc.pick(len(classes))]
    exc = cls('outcome')
    # of which the arguments do not tell everything
    exc.information = 'of the search'
    env.outcome = ('exception', exc)
    got = called(vc, env)
    if got is not None:
        same = got[0] == 'exception' and (got[1] is exc or (type(got[1]) is cls and got[1].args == exc.args and vars(got[1]) == vars(exc)))
        vc.prove('the exception of the search is raised', z3.BoolVal(same), detail='{}: {!r}'.format(cls.__name__, got)[:200])
        env.second()
        env.outcome = ('result', Result())
        got = called(vc, env)
        if got is not None:
            vc.prove('a later search in the same context is not affected', z3.BoolVal(got[0] == 'result' and got[1] is env.outcome[1]), detail=repr(got)[:200])


# ------------------------------------------------------------ asynchronous
@spec('C30', functions=[MOD + '.run_async'], seconds=30, trusted=['contract of Controller as in C16, C17, C20, C21 (the arguments are anything)'], reals=False, scope='any arguments, any outcome of the controller')
def controller_of_the_search(vc):
    env = Env(vc, 'none')
    made, log = [], []
    outcome = vc.pick(4)
    failure = OwnBaseError('outcome') if outcome == 1 else OwnError('outcome')

    class Controller:
        def __init__(self, **kw):
            made.append(kw)
            if outcome == 3:
                raise failure
            # filled in the course of the search
            self._state = types.SimpleNamespace(result=[])

        @property
        def state(self):
            return self._state

        async def run(self):
            log.append('run')
            await Pause()
            log.append('end')
            self._state.result.append(self)
            if outcome in (1, 2):
                raise failure

    loader = load.Loader({'asyncio': env.asyncio(), 'threading': env.threading(), 'queue': env.queue(), 'nodefinder.search._controller': types.SimpleNamespace(Controller=Controller)})
    fct = loader.get(MOD, 'run_async')
    sig = inspect.signature(fct)
    names = [p.name for p in sig.parameters.values() if p.name != 'gap_fct' and p.kind is p.KEYWORD_ONLY]
    given = names if vc.choose('all arguments') else []
    kwargs = {n: Result() for n in given}
    gap = Result()
    coro = fct(gap, **kwargs)
    pauses = 0
    try:
        while True:
            coro.send(None)
            pauses += 1
            if pauses > 3:
                raise core.Unsupported('the search waits for something else')
    except StopIteration as exc:
        got = ('result', exc.value)
    except BaseException as exc:  # pylint: disable=broad-except
        if core.exceptional(exc):
            raise
        got = ('exception', exc)
    ok = len(made) == 1 and made[0].get('gap_fct') is gap and all(made[0].get(n, None) is kwargs[n] for n in given) and set(made[0]) <= set(names) | {'gap_fct'}
    vc.prove('the controller gets every argument under its name', z3.BoolVal(ok))
    if outcome:
        vc.prove('an exception of the search is raised', z3.BoolVal(got == ('exception', failure)), detail=repr(got))
        return
    vc.prove('the search is run once, to its end', z3.BoolVal(log == ['run', 'end']), detail=repr(log))
    vc.prove('the result is the one at the end of the search', z3.BoolVal(got[0] == 'result' and isinstance(got[1], list) and len(got[1]) == 1 and isinstance(got[1][0], Controller)), detail=repr(got))


class Pause:
    def __await__(self):
        yield 'pause'
