"""
C11, C12: the work queues.

Two layers: histories of a few operations on arbitrary objects through the
public interface, and the invariant of the representation for every operation
in an arbitrary state (any number of objects, any history).
"""
import queue as real_queue
import collections
import types

import z3

from pyvc import core, load, seq, shims
from pyvc.core import S, lift, to_real
from pyvc.shims import Arr
from . import spec
from .coord import call

MOD = 'nodefinder.search._queue'
BASE = [MOD + '.ObjectQueue.' + n for n in ('__init__', 'objects', 'pop_queued', 'add_objects', '_extend_queue', 'has_queued')]
RUN = [MOD + '.RunningQueue.' + n for n in ('__init__', 'objects', 'pop_queued', 'set_finished', 'finished', 'num_running')]


# ------------------------------------------------------- histories (public)
def equal(vc, a, b):
    """Are two normalised objects the same? (splits the path)"""
    flat = lambda o: [x for y in o for x in (y if isinstance(y, tuple) else (y, ))]
    x, y = flat(a), flat(b)
    return len(x) == len(y) and vc.branch(z3.And([to_real(lift(p)) == to_real(lift(q)) for p, q in zip(x, y)]))


def less(vc, a, b):
    for x, y in zip(a, b):
        x, y = to_real(lift(x)), to_real(lift(y))
        if vc.branch(x < y):
            return True
        if vc.branch(y < x):
            return False
    return False


class Reference:
    def __init__(self, vc, simplex):
        self.vc, self.simplex = vc, simplex
        self.seen, self.queued, self.running, self.done = [], [], [], []

    def norm(self, obj):
        if not self.simplex:
            return tuple(obj)
        res = []
        for v in obj:
            v = tuple(v)
            k = len(res)
            while k and less(self.vc, v, res[k - 1]):
                k -= 1
            res.insert(k, v)
        return tuple(res)

    def find(self, obj, items):
        for k, o in enumerate(items):
            if equal(self.vc, obj, o):
                return k
        return None

    def add(self, objs):
        gained = False
        for obj in objs:
            obj = self.norm(obj)
            if self.find(obj, self.seen) is None:
                self.seen.append(obj)
                self.queued.append(obj)
                gained = True
        return gained


def new_object(vc, simplex, dim, known):
    """A new object or, as a simplex, an old one with its vertices in another order."""
    if simplex:
        if known and vc.choose('permuted'):
            obj = known[vc.pick(len(known), 'which')]
            return list(reversed(list(obj)))
        obj = [Arr([vc.real('x') for _ in range(dim)]) for _ in range(dim + 1)]
    else:
        obj = Arr([vc.real('x') for _ in range(dim)])
    known.append(obj)
    return obj


def same_list(vc, got, want):
    """equality of two lists of normalised objects, as a condition"""
    if len(got) != len(want):
        return z3.BoolVal(False)
    conds = []
    for a, b in zip(got, want):
        flat = lambda o: [x for y in o for x in (y if isinstance(y, tuple) else (y, ))]
        if not isinstance(a, tuple):
            return z3.BoolVal(False)
        x, y = flat(a), flat(b)
        conds.append(z3.BoolVal(len(x) == len(y)))
        conds += [to_real(lift(p)) == to_real(lift(q)) for p, q in zip(x, y)]
    return z3.And(conds)


def content(vc, q, ref):
    """the state which is reported"""
    objs = list(q.objects)
    n = len(ref.running)
    vc.prove('no object is lost: the remaining ones are the running and the queued ones', z3.BoolVal(len(objs) == n + len(ref.queued)))
    if len(objs) == n + len(ref.queued):
        vc.prove('queued objects are given in hand-out order, after the running ones', same_list(vc, objs[n:], ref.queued))
        left = list(objs[:n])
        for r in ref.running:
            k = ref.find(r, left)
            if k is None:
                vc.fail('the running objects are given first')
                break
            left.pop(k)
        else:
            vc.prove('the running objects are given first', z3.BoolVal(not left))
    vc.prove('has_queued is right', z3.BoolVal(bool(q.has_queued) == bool(ref.queued)))
    if hasattr(q, 'num_running') or ref.running:
        num = q.num_running
        vc.prove('num_running is right', lift(num) == n)
        vc.prove('finished is right', z3.BoolVal(bool(q.finished) == (not objs)))


def history(cls_name, simplex, dim, steps, initial, most, given=()):

    def check(vc):
        cls = load.Loader().get(MOD, cls_name)
        running = simplex or cls_name == 'RunningQueue'
        if cls_name == 'RunningQueue':
            cls = type('Queue', (cls, ), {'normalize': staticmethod(lambda objs: [tuple(o) for o in objs])})
        ref = Reference(vc, simplex)
        known = []
        start = [new_object(vc, simplex, dim, known) for _ in range(initial)]
        q = call(vc, cls, objects=list(start)) if initial else call(vc, cls)
        ref.add(start)
        content(vc, q, ref)
        for step in range(steps):
            ops = ['add', 'pop'] + (['finish'] if ref.running else [])
            op = given[step] if given else ops[vc.pick(len(ops), 'op')]
            q.needs_saving = False
            if op == 'add':
                objs = [new_object(vc, simplex, dim, known) for _ in range(1 + vc.pick(most, 'number'))]
                call(vc, q.add_objects, list(objs))
                gained = ref.add(objs)
                vc.prove('marked as needing to be saved if it gained an object', z3.BoolVal(q.needs_saving is True or not gained))
            elif op == 'pop':
                try:
                    got = call(vc, q.pop_queued)
                except (real_queue.Empty, IndexError):
                    vc.prove('only an empty queue has nothing to hand out', z3.BoolVal(not ref.queued))
                    continue
                vc.prove('nothing is handed out unless it is queued', z3.BoolVal(bool(ref.queued)))
                if not ref.queued:
                    return
                first = ref.queued.pop(0)
                vc.prove('objects are handed out first-in first-out, once', same_list(vc, [got], [first]))
                (ref.running if running else ref.done).append(first)
            else:
                k = vc.pick(len(ref.running), 'which')
                obj = ref.running.pop(k)
                ref.done.append(obj)
                call(vc, q.set_finished, obj)
                vc.prove('marked as needing to be saved if it finished an object', z3.BoolVal(q.needs_saving is True))
            # with given operations, it is only looked at before and afterwards
            if not given or step + 1 == steps:
                content(vc, q, ref)

    return check


for _cls, _simplex, _dim, _steps, _initial, _most in (
    ('PositionQueue', False, 1, 3, 0, 2), ('PositionQueue', False, 2, 2, 1, 2), ('RunningQueue', False, 1, 5, 0, 1), ('RunningQueue', False, 1, 2, 2, 2), ('SimplexQueue', True, 1, 2, 0, 1),
    ('SimplexQueue', True, 1, 1, 1, 1)
):
    spec('C11', 'C12', name='history_{}_{}d_{}'.format(_cls, _dim, _initial), functions=BASE + (RUN if _cls != 'PositionQueue' else []), seconds=60, max_paths=30000,
         scope='{} operations on arbitrary objects of dimension {}, through the public interface'.format(_steps, _dim))(history(_cls, _simplex, _dim, _steps, _initial, _most))


# ----------------------------------------- any state (representation invariant)
class SymSet:
    """Set of unknown content (objects are opaque), then changed."""
    _vc_symbolic = True

    def __init__(self, base, name):
        self.base, self.log = base, []
        self.count = core.cur().fresh_expr(z3.IntSort(), 'count_' + name)
        core.cur().fact(self.count >= 0)

    def member(self, x):
        x = lift(x)
        res = self.base(x)
        for add, y in self.log:
            res = z3.Or(res, x == lift(y)) if add else z3.And(res, x != lift(y))
        return res

    def __contains__(self, x):
        return core.cur().branch(self.member(x))

    def add(self, x):
        if x not in self:
            self.count = self.count + 1
        self.log.append((True, x))

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def __ior__(self, other):
        self.update(other)
        return self

    def __isub__(self, other):
        self.difference_update(other)
        return self

    def difference_update(self, *others):
        for o in others:
            for x in o:
                self.discard(x)

    def discard(self, x):
        if x in self:
            self.count = self.count - 1
            self.log.append((False, x))

    # the keys of a dictionary
    def __setitem__(self, x, _val):
        self.add(x)

    def setdefault(self, x, default=None):
        self.add(x)
        return default

    def __delitem__(self, x):
        self.remove(x)

    def pop(self, *args):
        if not args:
            raise core.Unsupported('any element of a set')
        if len(args) == 1 or args[0] in self:
            self.remove(args[0])
            return True
        return args[1]

    def keys(self):
        return self

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def _vc_len(self):
        return S(self.count)

    def __bool__(self):
        return core.cur().branch(self.count > 0)

    def _vc_list(self):
        return Parts([self])

    def __iter__(self):
        raise core.Unsupported('iteration over a set of unknown content')


class AbsQueue:
    """queue.Queue with unknown content, then changed."""
    _vc_symbolic = True

    def __init__(self, maxsize=0):
        self.base = None  # (element function, first, end)
        self.new = []

    def put_nowait(self, x):
        self.new.append(x)

    def put(self, x, block=True, timeout=None):
        self.new.append(x)

    def _len(self):
        return (self.base[2] - self.base[1] if self.base else z3.IntVal(0)) + len(self.new)

    def get_nowait(self):
        if self.base is not None and core.cur().branch(self.base[1] < self.base[2]):
            f, lo, hi = self.base
            self.base = (f, lo + 1, hi)
            return S(f(lo))
        if self.new:
            return self.new.pop(0)
        raise real_queue.Empty()

    def get(self, block=True, timeout=None):
        if block and timeout is None:
            if core.cur().branch(self._len() <= 0):
                raise core.Unsupported('blocks')
        return self.get_nowait()

    def qsize(self):
        return S(self._len())

    def empty(self):
        return core.cur().branch(self._len() == 0)

    @property
    def queue(self):
        return Content(self)


class AbsDeque(AbsQueue):
    """collections.deque with unknown content, then changed."""

    def __init__(self, items=()):
        super().__init__()
        self.new.extend(items)

    def append(self, x):
        self.new.append(x)

    def extend(self, xs):
        for x in xs:
            self.new.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def popleft(self):
        try:
            return self.get_nowait()
        except (real_queue.Empty, IndexError):
            raise IndexError('pop from an empty deque') from None

    def _vc_len(self):
        return self.qsize()

    def __bool__(self):
        return core.cur().branch(self._len() != 0)

    def _vc_list(self):
        return Parts([(self.base, list(self.new))])

    def __iter__(self):
        raise core.Unsupported('iteration over a queue of unknown content')


class Content:
    """The deque in a queue."""
    _vc_symbolic = True

    def __init__(self, q):
        self.q = q

    def _vc_len(self):
        return self.q.qsize()

    def _vc_list(self):
        return Parts([(self.q.base, list(self.q.new))])

    def __bool__(self):
        return core.cur().branch(self.q._len() != 0)


class Parts:
    """A list made of a set and (a part of) a queue."""
    _vc_symbolic = True

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, other):
        if isinstance(other, list):
            return Parts(self.parts + [(None, other)])
        return Parts(self.parts + other.parts)

    def __radd__(self, other):
        return Parts([(None, other)] + self.parts)

    def _vc_len(self):
        n = z3.IntVal(0)
        for p in self.parts:
            if isinstance(p, SymSet):
                n = n + p.count
            else:
                n = n + (p[0][2] - p[0][1] if p[0] else 0) + len(p[1])
        return S(n)

    def __bool__(self):
        return core.cur().branch(lift(self._vc_len()) > 0)

    def _vc_list(self):
        return Parts(list(self.parts))


QMOD = types.ModuleType('queue')
QMOD.Queue = QMOD.SimpleQueue = AbsQueue
QMOD.Empty, QMOD.Full = real_queue.Empty, real_queue.Full
COLL = types.ModuleType('collections')
COLL.__dict__.update(vars(collections))
COLL.deque = AbsDeque


class AnyState:
    """A queue after an arbitrary history."""

    def __init__(self, vc, base_name):
        self.vc = vc
        vc.coupled = 'representation invariant of the queue'
        base = load.Loader(stubs={'queue': QMOD, 'collections': COLL}).get(MOD, base_name)
        self.running_queue = base_name == 'RunningQueue'
        # the normalisation is specified separately
        cls = type('Queue', (base, ), {'normalize': staticmethod(lambda objs: list(objs))})
        q = self.q = call(vc, cls)
        want = {'_queued_objects', '_all_objects', 'needs_saving'} | ({'_running_objects'} if self.running_queue else set())
        if set(vars(q)) != want or not isinstance(q._queued_objects, AbsQueue):
            raise core.Unsupported('different representation of the queue')
        vc.prove('initially nothing is queued', z3.BoolVal(q._queued_objects.new == [] and isinstance(q._all_objects, (set, dict)) and not q._all_objects))
        if self.running_queue:
            vc.prove('initially nothing is running', z3.BoolVal(isinstance(q._running_objects, (set, dict)) and not q._running_objects))
        I, B = z3.IntSort(), z3.BoolSort()
        self.elem, self.where = z3.Function('element', I, I), z3.Function('where', I, I)
        self.f_all, self.f_run, self.f_done = [z3.Function(n, I, B) for n in ('in_all', 'is_running', 'is_done')]
        self.lo, self.hi = vc.int('first', low=0).e, vc.int('end').e
        vc.fact(self.hi >= self.lo)
        q._queued_objects.base = (self.elem, self.lo, self.hi)
        q._all_objects = SymSet(self.f_all, 'all')
        if self.running_queue:
            q._running_objects = SymSet(self.f_run, 'running')
        self.done = []  # finished (or handed out for good)
        self.added = []  # ghost: added by this operation

    def at(self, k):
        """what is known of the k-th element"""
        self.vc.fact(z3.Implies(z3.And(self.lo <= k, k < self.hi), self.where(self.elem(k)) == k))
        self.known(self.elem(k))

    def queued_before(self, x):
        w = self.where(x)
        return z3.And(self.lo <= w, w < self.hi, self.elem(w) == x)

    def known(self, x):
        """the invariant, for one object"""
        x = lift(x)
        a, b, c = self.queued_before(x), self.f_run(x) if self.running_queue else z3.BoolVal(False), self.f_done(x)
        self.vc.fact(self.f_all(x) == z3.Or(a, b, c), z3.Not(z3.And(a, b)), z3.Not(z3.And(a, c)), z3.Not(z3.And(b, c)))
        if self.running_queue:
            self.vc.fact(z3.Implies(b, self.q._running_objects.count >= 1))

    def times_queued(self, x):
        qu = self.q._queued_objects
        f, lo, hi = qu.base
        w = self.where(x)
        return z3.If(z3.And(lo <= w, w < hi, f(w) == x), 1, 0) + sum([z3.If(lift(y) == x, 1, 0) for y in qu.new], z3.IntVal(0))

    def invariant(self, x):
        """after the operation"""
        x = lift(x)
        q = self.q
        n = self.times_queued(x)
        if not isinstance(q._all_objects, SymSet) or self.running_queue and not isinstance(q._running_objects, SymSet):
            raise core.Unsupported('different representation of the queue')
        b = q._running_objects.member(x) if self.running_queue else z3.BoolVal(False)
        c = z3.Or(self.f_done(x), *[x == lift(y) for y in self.done])
        vc = self.vc
        vc.prove('an object is queued at most once', n <= 1)
        vc.prove('every object which was added is queued, running or finished', z3.Implies(q._all_objects.member(x), z3.Or(n == 1, b, c)))
        vc.prove('what is queued, running or finished will not be added again', z3.Implies(z3.Or(n >= 1, b, c), q._all_objects.member(x)))
        vc.prove('an object is in one of the states only', z3.And(z3.Not(z3.And(n >= 1, b)), z3.Not(z3.And(n >= 1, c)), z3.Not(z3.And(b, c))))
        vc.prove('nothing but the added objects enters the queue', z3.Implies(q._all_objects.member(x), z3.Or(self.f_all(x), *[x == lift(y) for y in self.added])))
        vc.prove('every added object is remembered', z3.Implies(z3.Or(self.f_all(x), *[x == lift(y) for y in self.added]), q._all_objects.member(x)))

    def report(self):
        q, vc = self.q, self.vc
        n = q._queued_objects._len()
        vc.prove('has_queued is right', z3.BoolVal(bool(q.has_queued)) == (n > 0))
        objs = q.objects
        if self.running_queue:
            c = q._running_objects.count
            vc.prove('num_running is right', lift(q.num_running) == c)
            vc.prove('finished is right', z3.BoolVal(bool(q.finished)) == (n + c == 0))
        else:
            c = None
        ok = isinstance(objs, Parts) and [p for p in objs.parts if isinstance(p, SymSet)] == ([q._running_objects] if self.running_queue else [])
        ok = ok and (not self.running_queue or objs.parts[0] is q._running_objects) and len(objs.parts) == (2 if self.running_queue else 1)
        vc.prove('the remaining objects are the running ones and then the queued ones', z3.BoolVal(ok and objs.parts[-1][0] is q._queued_objects.base and all(a is b for a, b in zip(objs.parts[-1][1], q._queued_objects.new))))


def any_state(base_name, op):

    def check(vc):
        st = AnyState(vc, base_name)
        q = st.q
        x = vc.int('object')
        st.known(x)
        q.needs_saving = False
        if op == 'add':
            objs = [vc.int('new') for _ in range(3)]
            for o in objs:
                st.known(o)
            st.added = objs
            lo, hi = st.lo, st.hi
            call(vc, q.add_objects, objs)
            expected = []
            for o in objs:
                if not vc.branch(st.f_all(o.e)) and not any(vc.branch(o.e == e.e) for e in expected):
                    expected.append(o)
            new = q._queued_objects.new
            vc.prove('what was queued before stays, in front', z3.And(q._queued_objects.base[1] == lo, q._queued_objects.base[2] == hi))
            vc.prove('new objects come last, in the order in which they were added', z3.And([z3.BoolVal(len(new) == len(expected))] + [lift(a) == lift(b) for a, b in zip(new, expected)]))
            vc.prove('marked as needing to be saved if it gained an object', z3.BoolVal(q.needs_saving is True or not expected))
        elif op == 'pop':
            st.at(st.lo)
            try:
                got = call(vc, q.pop_queued)
            except (real_queue.Empty, IndexError):
                vc.prove('only an empty queue has nothing to hand out', st.lo == st.hi)
                return
            vc.prove('an empty queue hands out nothing', st.lo < st.hi)
            vc.prove('the first object is handed out', lift(got) == st.elem(st.lo))
            if not st.running_queue:
                st.done.append(got)
        else:
            y = vc.int('finished')
            st.known(y)
            try:
                call(vc, q.set_finished, y)
            except KeyError:
                vc.prove('only running objects can be finished', z3.Not(st.f_run(y.e)))
                return
            vc.prove('only what is running can be finished', st.f_run(y.e))
            st.done.append(y)
            vc.prove('marked as needing to be saved if it finished an object', z3.BoolVal(q.needs_saving is True))
        st.invariant(x)
        st.report()

    return check


for _base, _ops in (('ObjectQueue', ('add', 'pop')), ('RunningQueue', ('add', 'pop', 'finish'))):
    for _op in _ops:
        spec('C11', 'C12', name='any_state_{}_{}'.format(_base, _op), functions=BASE + (RUN if _base == 'RunningQueue' else []), reals=False, seconds=60,
             scope='any number of objects and any history (objects of any kind after normalisation; up to three objects are added at once)',
             trusted=['contract of queue.Queue: first-in first-out'])(any_state(_base, _op))

for _cls, _simplex, _ops in (('PositionQueue', False, ('pop', 'add')), ('PositionQueue', False, ('add', 'pop', 'pop', 'add')), ('SimplexQueue', True, ('pop', 'finish', 'add')), ('SimplexQueue', True, ('add', 'pop', 'finish'))):
    spec('C11', 'C12', name='unwatched_{}_{}'.format(_cls, '_'.join(_ops)), functions=BASE + (RUN if _cls != 'PositionQueue' else []), seconds=60, max_paths=30000,
         scope='the given operations, at first with an arbitrary object of dimension 1; looked at before and afterwards only')(history(_cls, _simplex, 1, len(_ops), 1, 1, _ops))


def normal_form(cls_name, dim):

    def check(vc):
        cls = load.Loader().get(MOD, cls_name)
        simplex = cls_name == 'SimplexQueue'
        if not simplex:
            objs = [Arr([vc.real('x') for _ in range(dim)]) for _ in range(2)]
            res = list(call(vc, cls.normalize, list(objs)))
            vc.prove('positions are turned into tuples, in order', same_list(vc, res, [tuple(o) for o in objs]))
            return
        a = [[vc.real('x') for _ in range(dim)] for _ in range(dim + 1)]
        b = [a[0]] + [a[1], a[2]] if False else list(a)
        n, m = vc.pick(dim + 1, 'n'), vc.pick(dim + 1, 'm')
        b[n], b[m] = b[m], b[n]
        res = list(call(vc, cls.normalize, [Arr(a), b]))
        ref = Reference(vc, True)
        vc.prove('simplices are sorted tuples of vertex tuples', same_list(vc, res, [ref.norm(a), ref.norm(b)]))
        vc.prove('the order of the vertices does not matter', same_list(vc, res[:1], res[1:]))

    return check


for _cls, _dims in (('PositionQueue', (1, 2, 3)), ('SimplexQueue', (1, 2))):
    for _dim in _dims:
        spec('C11', 'C12', name='normalize_{}_{}d'.format(_cls, _dim), functions=[MOD + '.' + _cls + '.normalize'], seconds=60, max_paths=20000, scope='dimension {}'.format(_dim))(normal_form(_cls, _dim))
