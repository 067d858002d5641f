"""C11, C12: the work queues, against a reference model."""
import numpy as np

from .common import case, expect, need, call


def norm_simplex(obj):
    return tuple(sorted(tuple(float(y) for y in x) for x in obj))


def norm_pos(obj):
    return tuple(float(x) for x in obj)


class Model:
    """Reference: what the queue has to do."""

    def __init__(self, norm, running):
        self.norm = norm
        self.has_running = running
        self.seen, self.queued, self.running, self.finished, self.popped = set(), [], set(), [], []
        self.dirty = True

    def add(self, objs):
        gained = False
        for obj in objs:
            obj = self.norm(obj)
            if obj not in self.seen:
                self.seen.add(obj)
                self.queued.append(obj)
                gained = True
        if gained:
            self.dirty = True


def gen_objs(rng, pool, simplex):
    res = []
    for _ in range(int(rng.integers(0, 4))):
        obj = pool[rng.integers(len(pool))]
        if simplex:  # the same simplex with its vertices in another order
            obj = np.array(obj)[rng.permutation(len(obj))]
        kind = rng.integers(3)
        if kind == 0:
            obj = np.array(obj)
        elif kind == 1:
            obj = [tuple(x) for x in obj] if simplex else tuple(obj)
        else:
            obj = [list(x) for x in obj] if simplex else list(obj)
        res.append(obj)
    if res and rng.integers(3) == 0:
        res.append(res[0])
    if rng.integers(4) == 0:
        try:
            return np.array(res)
        except ValueError:
            pass
    return res


def history(rng, ctx, order):
    simplex = bool(rng.integers(2))
    cls = need('nodefinder.search._queue', 'SimplexQueue' if simplex else 'PositionQueue')
    norm = norm_simplex if simplex else norm_pos
    dim = int(rng.integers(1, 4))
    shape = (dim + 1, dim) if simplex else (dim, )
    pool = [rng.integers(0, 3, size=shape) / 2. for _ in range(int(rng.integers(1, 7)))]
    if rng.integers(3) == 0:
        # integers of any sign, as floats
        pool = [rng.integers(-3, 4, size=shape) * 1. for _ in range(int(rng.integers(1, 7)))]
    if rng.integers(3) == 0:
        # objects which nearly coincide
        eps = float(rng.choice([1e-16, 1e-12, 1e-9, 1e-6, 1e-4]))
        pool += [np.nextafter(p, 2) if rng.integers(2) else p + eps * rng.normal(size=p.shape) for p in pool]
    start = gen_objs(rng, pool, simplex)
    if rng.integers(15) == 0:
        # many objects at once
        start = list(start) + list(rng.integers(0, 40, size=(int(rng.integers(100, 600)), ) + shape) / 8.)
    many = []
    if rng.integers(15) == 0:
        # all of them different
        num = int(rng.choice([300, 1100, 2200]))
        many = list(rng.permutation(num).reshape((num, ) + (1, ) * len(shape)) + np.zeros(shape))
        start = list(start) + many
    ops = []
    ctx.input(kind=cls.__name__, start=start, ops=ops)
    model = Model(norm, simplex)
    queue = call(cls, start) if rng.integers(2) or len(start) else call(cls)
    model.add(start)
    if rng.integers(6) == 0:
        queue = call(cls, objects=start)

    def check():
        objs = [norm(x) for x in queue.objects]
        if order:
            n = len(model.running)
            expect(set(objs[:n]) == model.running and len(set(objs[:n])) == n and objs[n:] == model.queued,
                   'remaining objects are not the running ones followed by the queued ones in order', ops=ops, got=objs, running=model.running, queued=model.queued)
            expect(bool(queue.has_queued) == bool(model.queued), 'has_queued is wrong', ops=ops, got=queue.has_queued)
            if simplex:
                expect(bool(queue.finished) == (not objs), 'finished is wrong', ops=ops, got=queue.finished, remaining=objs)
                expect(queue.num_running == n, 'num_running is wrong', ops=ops, got=queue.num_running, expected=n)
            if model.dirty:
                expect(bool(queue.needs_saving), 'queue changed but not marked as needing to be saved', ops=ops)
        else:
            remaining = sorted(objs)
            exp = sorted(list(model.running) + model.queued)
            expect(remaining == exp, 'objects lost or invented', ops=ops, remaining=remaining, expected=exp)

    check()
    for _ in range(int(rng.integers(1, 14))):
        op = rng.integers(4)
        if op == 0:
            objs = gen_objs(rng, pool, simplex)
            ops.append(('add', [norm(x) for x in objs]))
            call(queue.add_objects, objs)
            model.add(objs)
        elif op == 1 and model.queued:
            ops.append(('pop', ))
            obj = queue.pop_queued()
            got = norm(obj)
            if order:
                expect(got == model.queued[0], 'not first-in first-out', ops=ops, got=got, expected=model.queued[0])
            expect(got not in model.popped, 'object handed out twice', ops=ops, obj=got)
            expect(got in model.queued, 'handed out an object that was not queued', ops=ops, obj=got)
            model.popped.append(got)
            model.queued.remove(got)
            if simplex:
                model.running.add(got)
        elif op == 2 and simplex and model.running:
            obj = sorted(model.running)[rng.integers(len(model.running))]
            ops.append(('finish', obj))
            queue.set_finished(obj)
            model.running.remove(obj)
            model.finished.append(obj)
            model.dirty = True
        elif op == 3:
            ops.append(('saved', ))
            queue.needs_saving = False
            model.dirty = False
        check()
        ctx.input(ops=ops)
    # hand out everything that is left
    left = []
    while queue.has_queued:
        left.append(norm(queue.pop_queued()))
        expect(len(left) <= len(model.queued), 'handed out more objects than were queued', ops=ops, got=left)
    if order:
        expect(left == model.queued, 'not first-in first-out', ops=ops, got=left, expected=model.queued)
    expect(sorted(left) == sorted(model.queued), 'objects lost or handed out twice', ops=ops, got=left, expected=model.queued)
    call(queue.add_objects, list(pool) + many)
    expect(not queue.has_queued or all(norm(x) not in model.seen for x in list(queue.objects)[len(model.running) + len(left) if simplex else 0:]),
           'objects are handed out again when added again', ops=ops)


@case('C11')
def each_object_once(rng, ctx):
    history(rng, ctx, False)


@case('C12')
def order_and_flags(rng, ctx):
    history(rng, ctx, True)
