"""
C22, C23: a saved object is loaded again unchanged.

The real classes and the real code of fsc.hdf5_io are executed on a model of
the h5py interface (``Group``, ``Dataset``, ``File``) which holds symbolic values.
"""
import collections
import types

import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift, to_real
from pyvc.seq import SymSeq, Spread
from pyvc.shims import Arr, GV
from . import spec
from .coord import call

RES = 'nodefinder.search.result.'
MIN = RES + '_minimization'
QUEUE = 'nodefinder.search._queue'
CONT = RES + '_search_result_container'
STATE = RES + '_controller_state'
CSYS = 'nodefinder.coordinate_system'
ICONT = 'nodefinder.identify.result._containers'
SHAPES = 'nodefinder.identify.result._shapes'
TRUST = ['model of h5py: a value which is set is read back, numbers and arrays of numbers are supported (str is read as bytes), others raise TypeError',
         'fsc.hdf5_io is executed as it is installed']
TRUST_LIST = TRUST + ['contract of the list serialisation of fsc.hdf5_io for lists of any length: element by element, in order']


# ------------------------------------------------------------- model of h5py
class Text(str):
    """Some text, of which nothing is known."""


class RawText(bytes):
    """The same as it is read: encoded."""

    def decode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('-', '').replace('_', '') != 'utf8':
            raise core.Unsupported('encoding')
        return self.text

    def __eq__(self, other):
        return isinstance(other, RawText) and other.text is self.text

    __hash__ = bytes.__hash__


def native(val):
    """What is stored for a value; TypeError if it is not supported."""
    if isinstance(val, Dataset):
        return val.val
    if isinstance(val, S):
        return val
    if isinstance(val, Text):
        raw = RawText(b'?')
        raw.text = val
        return raw
    if isinstance(val, str):
        if '\0' in val:
            raise ValueError('VLEN strings do not support embedded NULLs')
        return val.encode()
    if isinstance(val, bytes):
        return val
    if isinstance(val, (bool, int, float, complex, numpy.number, numpy.bool_)):
        return numpy.asarray(val)[()]
    if isinstance(val, Arr):
        return entries(val.copy())
    if isinstance(val, numpy.ndarray):
        return entries(Arr(val.copy())) if val.dtype == object else val.copy()
    if isinstance(val, (SymSeq, shims.core_seq_types)):
        sample = val.at(core.cur().fresh_expr(z3.IntSort(), 'probe'))
        if isinstance(sample, (S, Arr, GV)):
            return val
        if isinstance(sample, (tuple, list)):
            entries(Arr(list(sample)))
            return val
        raise TypeError('Object dtype has no native HDF5 equivalent')
    if isinstance(val, GV):
        return val.copy()
    if isinstance(val, (list, tuple)) or (hasattr(type(val), '__getitem__') and hasattr(type(val), '__len__') and not isinstance(val, dict)):
        items = [native_row(x) for x in (val if isinstance(val, (list, tuple)) else [val[i] for i in range(len(val))])]
        if any(isinstance(x, (SymSeq, GV)) for x in items):
            raise core.Unsupported('array of sequences')
        if not items:
            return numpy.array([])
        try:
            return entries(Arr(items))
        except ValueError as exc:
            raise TypeError('ragged') from exc
    raise TypeError('Object dtype has no native HDF5 equivalent')


def native_row(x):
    res = native(x)
    if isinstance(res, bytes):
        raise TypeError('No conversion path for dtype')
    return res


def entries(arr):
    for x in arr.a.flat:
        if isinstance(x, S) or isinstance(x, (bool, int, float, numpy.number, numpy.bool_)):
            continue
        raise TypeError('Object dtype has no native HDF5 equivalent')
    if not any(isinstance(x, S) for x in arr.a.flat):
        return numpy.array(arr.a.tolist()).reshape(arr.a.shape)
    return arr


class Dataset:
    def __init__(self, val):
        self.val = val

    def __getitem__(self, key):
        val = self.val
        if isinstance(key, tuple) and not key or key is Ellipsis or isinstance(key, slice) and key == slice(None):
            return val.copy() if isinstance(val, (Arr, numpy.ndarray, GV)) else val
        return val[key]

    def _vc_array(self, dtype=None):
        return shims.NP.array(self[()], dtype=dtype)

    def _vc_comp(self, kind, elt, cond):
        val = self[()]
        if hasattr(val, '_vc_comp'):
            return val._vc_comp(kind, elt, cond)
        return core.cur().comp_hooks.comp(kind, elt, iter(self), cond)

    def _vc_list(self):
        return shims.b_list(self[()])

    def _vc_len(self):
        return shims.b_len(self.val)

    def __iter__(self):
        return iter(self[()])

    def __len__(self):
        return len(self.val)

    @property
    def shape(self):
        return self.val.shape

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('dataset.{}'.format(name))


class Group:
    def __init__(self, name='/', vc=None):
        self.name = name
        self._items = {}
        self._list = None

    def _walk(self, key, create=False):
        if not isinstance(key, str):
            raise TypeError('Accessing a group is done with bytes or str, not {}'.format(type(key)))
        parts = [p for p in key.split('/') if p]
        node = self
        for p in parts[:-1]:
            if p not in node._items and create:
                node._items[p] = Group(node.name + p + '/')
            node = node._items[p]
        return node, parts[-1]

    def __getitem__(self, key):
        node, last = self._walk(key)
        if last not in node._items:
            raise KeyError("Unable to open object (object '{}' doesn't exist)".format(key))
        return node._items[last]

    def __setitem__(self, key, val):
        node, last = self._walk(key, create=True)
        if last in node._items:
            raise OSError('Unable to create link (name already exists)')
        node._items[last] = Dataset(native(val))

    def create_group(self, key):
        node, last = self._walk(key, create=True)
        if last in node._items:
            raise ValueError('Unable to create group (name already exists)')
        node._items[last] = Group(node.name + last + '/')
        return node._items[last]

    def require_group(self, key):
        node, last = self._walk(key, create=True)
        if isinstance(node._items.get(last), Group):
            return node._items[last]
        return self.create_group(key)

    def create_dataset(self, key, shape=None, dtype=None, data=None):
        if data is None or dtype is not None or shape is not None:
            raise core.Unsupported('create_dataset')
        self[key] = data
        return self[key]

    def __contains__(self, key):
        try:
            node, last = self._walk(key)
        except (KeyError, TypeError, AttributeError):
            return False
        return last in node._items

    def __iter__(self):
        if self._list is not None:
            raise core.Unsupported('keys of a list of unknown length')
        # any order is possible, two are used
        return iter(sorted(self._items, reverse=bool(core.cur().scope.get('reverse'))))

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return True

    def keys(self):
        return list(self)

    def values(self):
        return [self._items[k] for k in self]

    def items(self):
        return [(k, self._items[k]) for k in self]

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('group.{}'.format(name))


class Disk:
    """The h5py module, for a disk with nothing on it."""

    def __init__(self):
        self.files = {}
        disk = self

        class File(Group):
            def __init__(self, name, mode='r', **kw):
                super().__init__()
                name = str(name)
                if mode in ('w', 'w-', 'x'):
                    disk.files[name] = self._items
                elif name in disk.files:
                    self._items = disk.files[name]
                elif mode == 'a':
                    disk.files[name] = self._items
                else:
                    raise FileNotFoundError(name)

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                return False

            def close(self):
                pass

        self.File = File
        self.Group, self.Dataset = Group, Dataset

    def __getattr__(self, name):
        raise core.Unsupported('h5py.{}'.format(name))


def loader_for(vc, **stubs):
    """The real code of the repository and of fsc.hdf5_io on the model of h5py."""
    import fsc.hdf5_io
    from fsc.hdf5_io import _save_load, _subscribe, _special_types
    mapping = _subscribe.SERIALIZE_MAPPING
    for tag in [t for t in mapping if t.startswith('nodefinder.')]:
        del mapping[tag]
    disk = Disk()
    _save_load.h5py = disk
    dispatch = _save_load.to_hdf5_singledispatch
    if S not in dispatch.registry:
        number = dispatch.registry[__import__('numbers').Complex]
        dispatch.register(S, number)
        array = dispatch.registry[numpy.ndarray]
        dispatch.register(Arr, array)

        def write_list(obj, handle):
            handle['type_tag'] = 'builtins.list'
            handle._list = obj.map(lambda x: written(x))

        dispatch.register(SymSeq, write_list)
        plain = _special_types._deserialize_iterable

        def read_list(handle):
            if handle._list is not None:
                return handle._list.map(_save_load.from_hdf5)
            return plain(handle)

        _special_types._deserialize_iterable = read_list

        def written(x):
            group = Group('/element/')
            _save_load.to_hdf5(x, group)
            return group

    vc.scope['reverse'] = vc.choose('order of the keys')
    stubs = dict(stubs)
    stubs['fsc.hdf5_io'] = fsc.hdf5_io
    loader = load.Loader(stubs)
    vc.comp_hooks = loader.hooks
    vc.disk = disk
    return loader


def roundtrip(vc, loader, obj, name='saving and loading works'):
    """io.load of what io.save wrote"""
    io = loader.load('nodefinder.io')
    vc.functions.update(['nodefinder.io.save', 'nodefinder.io.load'])
    try:
        io.save(obj, '/some/file.hdf5')
        res = io.load('/some/file.hdf5')
    except Exception as exc:  # pylint: disable=broad-except
        if core.exceptional(exc):
            raise
        vc.real_exception(name, exc)
        raise core.PathEnd() from exc
    vc.prove(name, z3.BoolVal(True))
    return res


# -------------------------------------------------------------------- equality
def eq(vc, a, b):
    """Equal values (the condition for it)."""
    if isinstance(a, Dataset) or isinstance(b, Dataset) or isinstance(a, Group) or isinstance(b, Group):
        return z3.BoolVal(False)
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return z3.BoolVal(type(a) in (str, Text) and type(b) in (str, Text) and (a is b if isinstance(a, Text) else a == b))
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        if not isinstance(a, SymSeq) or not isinstance(b, SymSeq) or a.cond is not None or b.cond is not None:
            return z3.BoolVal(False)
        k = vc.fresh_expr(z3.IntSort(), 'at')
        vc.fact(z3.Implies(a.n > 0, z3.And(k >= 0, k < a.n)))
        a.instantiate(k)
        b.instantiate(k)
        return z3.And(a.n == b.n, z3.Implies(a.n > 0, eq(vc, a.at(k), b.at(k))))
    seqs = (list, tuple, Arr, numpy.ndarray)
    if isinstance(a, numpy.ndarray) and a.shape == ():
        a = a[()]
    if isinstance(b, numpy.ndarray) and b.shape == ():
        b = b[()]
    if isinstance(a, seqs) or isinstance(b, seqs):
        if not isinstance(a, seqs) or not isinstance(b, seqs) or len(a) != len(b):
            return z3.BoolVal(False)
        if isinstance(a, (Arr, numpy.ndarray)) and isinstance(b, (Arr, numpy.ndarray)) and a.size and a.shape != b.shape:
            return z3.BoolVal(False)
        return z3.And([eq(vc, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        if not isinstance(a, dict) or not isinstance(b, dict) or len(a) != len(b) or any(k not in b for k in a):
            return z3.BoolVal(False)
        return z3.And([eq(vc, a[k], b[k]) for k in a])
    if isinstance(a, S) or isinstance(b, S):
        x, y = lift(a), lift(b)
        if (x.sort() == z3.BoolSort()) != (y.sort() == z3.BoolSort()):
            return z3.BoolVal(False)
        return x == y if x.sort() == y.sort() else to_real(x) == to_real(y)
    if core.is_num(a) or core.is_num(b):
        boolean = (bool, numpy.bool_)
        return z3.BoolVal(bool(core.is_num(a) and core.is_num(b) and a == b and isinstance(a, boolean) == isinstance(b, boolean)))
    if type(a).__name__ != type(b).__name__:
        return z3.BoolVal(False)
    if type(a).__name__ == 'MinimizationResult':
        return eq(vc, dict(vars(a)), dict(vars(b)))
    if type(a).__name__ == 'JoinedMinimizationResult':
        return z3.And(eq(vc, a.ancestor, b.ancestor), eq(vc, a.child, b.child))
    if type(a).__name__ == 'CoordinateSystem':
        return z3.And([eq(vc, getattr(a, n), getattr(b, n)) for n in ('limits', 'periodic', 'dim', 'size')])
    if type(a).__name__ == 'NodalPoint':
        return eq(vc, a.position, b.position)
    if type(a).__name__ == 'NodalLine':
        return z3.And(graph_eq(vc, a.graph, b.graph), eq(vc, dict(a.degree_count), dict(b.degree_count)))
    if type(a).__name__ == 'IdentificationResult':
        return z3.And([eq(vc, getattr(a, n), getattr(b, n)) for n in ('dimension', 'positions', 'shape')])
    raise core.Unsupported('comparison of {}'.format(type(a).__name__))


def graph_eq(vc, a, b):
    """the same nodes and edges"""
    na, nb = list(a.nodes), list(b.nodes)
    ea, eb = list(a.edges), list(b.edges)
    if len(na) != len(nb) or len(ea) != len(eb):
        return z3.BoolVal(False)
    if not all(isinstance(n, tuple) for n in nb):
        return z3.BoolVal(False)
    conds = [z3.Or([eq(vc, x, y) for y in nb] or [z3.BoolVal(False)]) for x in na]
    conds += [z3.Or([z3.Or(z3.And(eq(vc, x[0], y[0]), eq(vc, x[1], y[1])), z3.And(eq(vc, x[0], y[1]), eq(vc, x[1], y[0]))) for y in eb] or [z3.BoolVal(False)]) for x in ea]
    return z3.And(conds)


def vector(vc, name, dim):
    return Arr([vc.real(name) for _ in range(dim)])


class Rows(SymSeq):
    """An array with an unknown number of rows of a known shape."""

    def __init__(self, n, fct, rows, **kw):
        super().__init__(n, fct, **kw)
        self.rows = rows

    def _vc_isinstance(self, types_):
        return True if numpy.ndarray in types_ else None

    @property
    def shape(self):
        return (S(self.n), ) + self.rows

    @property
    def ndim(self):
        return 1 + len(self.rows)

    @property
    def size(self):
        return S(self.n * int(numpy.prod(self.rows)))


def history(vc, name, dim):
    """An array with any number of rows of simplices (or values)."""
    num = numpy.arange(dim * (dim + 1))
    cols = [z3.Function('{}!{}'.format(name, k), z3.IntSort(), z3.RealSort()) for k in num]
    fun = [z3.Function('fun_{}!{}'.format(name, k), z3.IntSort(), z3.RealSort()) for k in range(dim + 1)]
    n = vc.fresh_expr(z3.IntSort(), 'len_' + name)
    vc.fact(n >= 0)
    simplices = Rows(n, lambda k: Arr([[S(cols[i * dim + j](k)) for j in range(dim)] for i in range(dim + 1)]), (dim + 1, dim), name=name)
    values = Rows(n, lambda k: Arr([S(f(k)) for f in fun]), (dim + 1, ), name='fun_' + name)
    return simplices, values


def minimization(vc, loader, dim, name='r', with_history=None, **kw):
    cls = loader.get(MIN, 'MinimizationResult')
    attrs = dict(
        pos=vector(vc, 'pos_' + name, dim), value=vc.real('value_' + name), success=vc.bool('success_' + name), status=vc.int('status_' + name), message=Text('any'),
        num_fev=vc.int('num_fev_' + name), num_iter=vc.int('num_iter_' + name)
    )
    attrs.update(kw)
    if vc.choose('history') if with_history is None else with_history:
        attrs['simplex_history'], attrs['fun_simplex_history'] = history(vc, 'hist_' + name, dim)
    return cls(**attrs)


def copy_of(x):
    """the value now, as the object may be changed"""
    if isinstance(x, (Arr, numpy.ndarray)):
        return x.copy()
    if isinstance(x, list):
        return [copy_of(y) for y in x]
    if type(x).__name__ == 'MinimizationResult':
        return type(x)(**{k: copy_of(v) for k, v in vars(x).items()})
    if type(x).__name__ == 'JoinedMinimizationResult':
        return type(x)(child=copy_of(x.child), ancestor=copy_of(x.ancestor))
    return x


FUN_MIN = [MIN + '.MinimizationResult.' + n for n in ('to_hdf5', 'from_hdf5')]


def minimization_result(dim):

    def check(vc):
        loader = loader_for(vc)
        r = minimization(vc, loader, dim)
        want = copy_of(r)
        got = roundtrip(vc, loader, r)
        vc.prove('it is a minimization result', z3.BoolVal(isinstance(got, loader.get(MIN, 'MinimizationResult'))))
        vc.prove('it has the same attributes', z3.BoolVal(set(vars(got)) == set(vars(want))))
        for key, val in vars(want).items():
            vc.prove('{} is the saved one'.format(key), eq(vc, val, getattr(got, key, None)))
        vc.prove('saving does not modify it', eq(vc, want, r))

    return check


for _dim in (1, 2, 3):
    spec('C22', name='minimization_result_{}d'.format(_dim), functions=FUN_MIN, trusted=TRUST, seconds=40, scope='dimension {}, any values, histories of any length'.format(_dim))(minimization_result(_dim))


@spec('C22', functions=FUN_MIN, trusted=TRUST, seconds=40, scope='other attributes')
def minimization_attributes(vc):
    loader = loader_for(vc)
    cls = loader.get(MIN, 'MinimizationResult')
    msgs = ['', 'text', 'Größe', "b'quoted'", 'x' * 500]
    attrs = dict(pos=vector(vc, 'pos', 2), value=vc.real('value'), success=[True, False][vc.pick(2)], status=[0, 1, 2, 4][vc.pick(4)], message=msgs[vc.pick(len(msgs))],
                 num_fev=12, num_iter=3, extra=vector(vc, 'extra', 4), note='a note')
    want = dict(attrs)
    got = roundtrip(vc, loader, cls(**attrs))
    vc.prove('it has the same attributes', z3.BoolVal(set(vars(got)) == set(want)))
    for key, val in want.items():
        vc.prove('{} is the saved one'.format(key), eq(vc, val, getattr(got, key, None)))


FUN_JOIN = [MIN + '.JoinedMinimizationResult.' + n for n in ('__init__', '__getattr__', '_join')]


@spec('C22', functions=FUN_MIN + FUN_JOIN, trusted=TRUST, seconds=60, scope='dimension 2, any values, histories of any length')
def joined_result(vc):
    loader = loader_for(vc)
    cls = loader.get(MIN, 'JoinedMinimizationResult')
    first, second = minimization(vc, loader, 2, 'a', False), minimization(vc, loader, 2, 'b', False)
    if vc.choose('nested'):
        second = cls(child=second, ancestor=minimization(vc, loader, 2, 'c', False))
    res = cls(child=second, ancestor=first)
    want = copy_of(res)
    got = roundtrip(vc, loader, res)
    vc.prove('it is a joined result', z3.BoolVal(isinstance(got, cls)))
    vc.prove('the first stage is the saved one', eq(vc, want.ancestor, got.ancestor))
    vc.prove('the second stage is the saved one', eq(vc, want.child, got.child))
    for key in ('pos', 'value', 'success', 'status', 'message', 'num_fev', 'num_iter'):
        vc.prove('{} is the one of the saved result'.format(key), eq(vc, getattr(want, key), getattr(got, key)))


@spec('C22', functions=FUN_MIN + FUN_JOIN, trusted=TRUST, seconds=60, scope='dimension 1, histories of given lengths')
def joined_histories(vc):
    loader = loader_for(vc)
    cls = loader.get(MIN, 'JoinedMinimizationResult')

    def stage(name, num):
        r = minimization(vc, loader, 1, name, False)
        r.simplex_history = Arr([[[vc.real('h')], [vc.real('h')]] for _ in range(num)])
        r.fun_simplex_history = Arr([[vc.real('f'), vc.real('f')] for _ in range(num)])
        return r

    a, b = stage('a', 1 + vc.pick(2)), stage('b', 1 + vc.pick(2))
    res = cls(child=b, ancestor=a)
    want = copy_of(res)
    got = roundtrip(vc, loader, res)
    vc.prove('both stages are the saved ones', eq(vc, want, got))
    for key in ('simplex_history', 'fun_simplex_history'):
        both = list(getattr(want.ancestor, key)) + list(getattr(want.child, key))
        vc.prove('{} is the one of both stages'.format(key), eq(vc, both, list(getattr(got, key))))


# ---------------------------------------------------------------------- queues
FUN_QUEUE = [QUEUE + '.ObjectQueue.' + n for n in ('__init__', 'objects', 'from_hdf5', 'to_hdf5', 'pop_queued', '_extend_queue')]


def queue(cls_name, dim, steps):
    simplex = cls_name == 'SimplexQueue'

    def check(vc):
        from .queues import new_object, same_list
        loader = loader_for(vc)
        q = call(vc, loader.get(QUEUE, cls_name))
        for _ in range(vc.pick(steps + 1, 'number')):
            obj = [vector(vc, 'x', dim) for _ in range(dim + 1)] if simplex else vector(vc, 'x', dim)
            call(vc, q.add_objects, [obj])
        want = list(q.objects)
        if q.has_queued and vc.choose('pop'):
            obj = call(vc, q.pop_queued)
            if not simplex:
                want = want[1:]
            elif vc.choose('finished'):
                call(vc, q.set_finished, obj)
                want = want[1:]
        got = roundtrip(vc, loader, q)
        vc.prove('it is a queue of the same kind', z3.BoolVal(type(got).__name__ == cls_name))
        have = list(got.objects)
        vc.prove('the objects are the saved ones, in the same order', same_list(vc, have, want))
        if simplex:
            vc.prove('nothing is running', z3.BoolVal(got.num_running == 0))
        popped = []
        while got.has_queued:
            popped.append(call(vc, got.pop_queued))
        vc.prove('they are handed out in this order, the running ones first', same_list(vc, popped, want))
        vc.prove('saving does not modify it', same_list(vc, list(q.objects), want))
        if popped:
            call(vc, got.add_objects, [want[0]])
            vc.prove('an object which was loaded is not queued again', z3.BoolVal(not got.has_queued))

    return check


for _cls, _dim, _steps in (('PositionQueue', 1, 3), ('PositionQueue', 2, 2), ('PositionQueue', 3, 2), ('SimplexQueue', 1, 2), ('SimplexQueue', 2, 1)):
    spec('C22', name='queue_{}_{}d'.format(_cls, _dim), functions=FUN_QUEUE + [QUEUE + '.{}.normalize'.format(_cls)], trusted=TRUST, seconds=90, max_paths=20000,
         scope='at most {} objects, dimension {}'.format(_steps, _dim))(queue(_cls, _dim, _steps))


def queue_any(cls_name, dim):
    simplex = cls_name == 'SimplexQueue'

    def check(vc):
        vc.coupled = 'arguments of the constructor'
        loader = loader_for(vc)
        cls = loader.get(QUEUE, cls_name)
        rows = dim * (dim + 1) if simplex else dim
        cols = [z3.Function('x!{}'.format(k), z3.IntSort(), z3.RealSort()) for k in range(rows)]
        if simplex:
            at = lambda k: tuple(tuple(S(cols[i * dim + j](k)) for j in range(dim)) for i in range(dim + 1))
        else:
            at = lambda k: tuple(S(c(k)) for c in cols)
        objs = SymSeq.new(at, 'objects')

        class Any(cls):
            def __init__(self, objects=frozenset()):
                self.given = objects
                self.needs_saving = True

            objects = property(lambda self: objs)

        from fsc.hdf5_io import _subscribe
        for tag, c in list(_subscribe.SERIALIZE_MAPPING.items()):
            if c is cls:
                _subscribe.SERIALIZE_MAPPING[tag] = Any
        got = roundtrip(vc, loader, Any())
        vc.prove('it is built from the saved objects, in the same order', eq(vc, objs.map(Arr), got.given if isinstance(got.given, SymSeq) else None))

    return check


for _cls, _dim in (('PositionQueue', 1), ('PositionQueue', 3), ('SimplexQueue', 2)):
    spec('C22', name='queue_any_{}_{}d'.format(_cls, _dim), functions=[QUEUE + '.ObjectQueue.from_hdf5', QUEUE + '.ObjectQueue.to_hdf5'], trusted=TRUST, seconds=30,
         scope='any number of objects, dimension {}'.format(_dim))(queue_any(_cls, _dim))


# ---------------------------------------------------- coordinate system, result
@spec('C22', 'C23', functions=[CSYS + '.CoordinateSystem.__init__'], trusted=TRUST, seconds=30, scope='dimension 1 to 4')
def coordinate_system(vc):
    loader = loader_for(vc)
    dim = 1 + vc.pick(4)
    limits = [(vc.real('a'), vc.real('b')) for _ in range(dim)]
    cs = call(vc, loader.get(CSYS, 'CoordinateSystem'), limits=limits, periodic=vc.choose('periodic'))
    got = roundtrip(vc, loader, cs)
    vc.prove('the limits are the saved ones', eq(vc, cs.limits, got.limits))
    vc.prove('the boundary conditions are the saved ones', z3.BoolVal(bool(got.periodic) == bool(cs.periodic)))
    vc.prove('size and dimension follow', z3.And(eq(vc, cs.size, got.size), z3.BoolVal(got.dim == cs.dim)))


class PlainCells:
    """A list of values, whatever their positions."""

    def __init__(self, num_cells, periodic):
        self._values = []

    def add_point(self, frac, value):
        self._values.append(value)

    def values(self):
        return self._values

    def __len__(self):
        return len(self._values)

    def __iter__(self):
        return iter(self._values)

    def __getitem__(self, key):
        return self._values[key]


CELLS = RES + '_cell_list'
FUN_CONT = [CONT + '.SearchResultContainer.' + n for n in ('__init__', 'add_result', 'set_refined', 'minimization_results')]
TRUST_CELLS = ['contract of the cell lists: the values in the order in which they were added (C08, C09)']


def container(vc, loader, num, dim=1):
    cs = call(vc, loader.get(CSYS, 'CoordinateSystem'), limits=[(0., 2.)] * dim, periodic=vc.choose('periodic'))
    cont = call(vc, loader.get(CONT, 'SearchResultContainer'), coordinate_system=cs, gap_threshold=vc.real('threshold'), dist_cutoff=0.5)
    for k in range(vc.pick(num + 1, 'results')):
        r = minimization(vc, loader, dim, str(k), False)
        r = r if vc.choose('plain') else loader.get(MIN, 'JoinedMinimizationResult')(child=r, ancestor=minimization(vc, loader, dim, 'first', False))
        if type(r).__name__ == 'JoinedMinimizationResult':
            r.pos = r.child.pos
        call(vc, cont.add_result, r)
    for k in range(vc.pick(num + 1, 'refined')):
        call(vc, cont.set_refined, cs.normalize_position(vector(vc, 'refined', dim)))
    return cont


def same_container(vc, want, got):
    vc.prove('the coordinate system is the saved one', eq(vc, want.coordinate_system, got.coordinate_system))
    vc.prove('the threshold and the cutoff are the saved ones', z3.And(eq(vc, want.gap_threshold, got.gap_threshold), eq(vc, want.dist_cutoff, got.dist_cutoff)))
    vc.prove('the nodes are the saved ones, in order', eq(vc, list(want.nodes), list(got.nodes)))
    vc.prove('the rejected results are the saved ones, in order', eq(vc, list(want.rejected_results), list(got.rejected_results)))
    vc.prove('the refined positions are the saved ones, in order', eq(vc, list(want.refined_results), list(got.refined_results)))


def whole_container(num, dim):

    def check(vc):
        loader = loader_for(vc, **{CELLS: shims.module(CELLS, CellList=PlainCells)})
        cont = container(vc, loader, num, dim)
        before = copy_of(list(cont.nodes)), copy_of(list(cont.rejected_results)), copy_of(list(cont.refined_results))
        got = roundtrip(vc, loader, cont)
        vc.prove('it is a search result', z3.BoolVal(type(got).__name__ == 'SearchResultContainer'))
        same_container(vc, cont, got)
        vc.prove('saving does not modify it', z3.And([eq(vc, list(a), list(b)) for a, b in zip(before, (cont.nodes, cont.rejected_results, cont.refined_results))]))

    return check


for _num, _dim in ((2, 1), (1, 3)):
    spec('C22', name='container_{}d'.format(_dim), functions=FUN_CONT, trusted=TRUST + TRUST_CELLS, seconds=100, max_paths=20000, scope='at most {} results and refined positions, dimension {}'.format(_num, _dim))(whole_container(_num, _dim))


@spec('C22', functions=[STATE + '.ControllerState.__init__'], trusted=TRUST + TRUST_CELLS, seconds=100, max_paths=20000, scope='one of everything, dimension 1')
def whole_state(vc):
    from .queues import same_list
    loader = loader_for(vc, **{CELLS: shims.module(CELLS, CellList=PlainCells)})
    cont = container(vc, loader, 1)
    sq = call(vc, loader.get(QUEUE, 'SimplexQueue'))
    pq = call(vc, loader.get(QUEUE, 'PositionQueue'))
    if vc.choose('simplex'):
        call(vc, sq.add_objects, [[vector(vc, 'x', 1), vector(vc, 'x', 1)]])
        if vc.choose('running'):
            call(vc, sq.pop_queued)
    if vc.choose('position'):
        call(vc, pq.add_objects, [vector(vc, 'x', 1)])
    st = call(vc, loader.get(STATE, 'ControllerState'), result=cont, simplex_queue=sq, position_queue=pq)
    got = roundtrip(vc, loader, st)
    vc.prove('it is a search state', z3.BoolVal(type(got).__name__ == 'ControllerState'))
    same_container(vc, cont, got.result)
    vc.prove('the simplices are the saved ones', same_list(vc, list(got.simplex_queue.objects), list(sq.objects)))
    vc.prove('the positions are the saved ones', same_list(vc, list(got.position_queue.objects), list(pq.objects)))


@spec('C22', functions=[CONT + '.SearchResultContainer.minimization_results'], trusted=TRUST_LIST + ['contract of the constructor of the result container: the results in order (C09)'], seconds=60,
      scope='any number of results and refined positions, dimension 2')
def container_any(vc):
    vc.coupled = 'arguments of the constructor'
    loader = loader_for(vc)
    cls = loader.get(CONT, 'SearchResultContainer')
    proto = minimization(vc, loader, 2, 'proto', False)
    rmin = type(proto)
    f = {n: z3.Function('r_' + n, z3.IntSort(), z3.RealSort()) for n in ('x', 'y', 'value')}
    ok = z3.Function('r_success', z3.IntSort(), z3.BoolSort())
    joined = loader.get(MIN, 'JoinedMinimizationResult')

    def one(k):
        kw = dict(pos=Arr([S(f['x'](k)), S(f['y'](k))]), value=S(f['value'](k)), success=S(ok(k)), message=Text('any'))
        return rmin(**kw)

    kind = vc.choose('joined')
    results = SymSeq.new((lambda k: joined(child=one(k), ancestor=one(k + 1))) if kind else one, 'results')
    refined = SymSeq.new(lambda k: Arr([S(f['y'](k)), S(f['x'](k))]), 'refined')
    cs = call(vc, loader.get(CSYS, 'CoordinateSystem'), limits=[(vc.real('a'), vc.real('b')), (vc.real('a'), vc.real('b'))], periodic=vc.choose('periodic'))

    class Any(cls):
        def __init__(self, *, coordinate_system, minimization_results=(), gap_threshold, dist_cutoff, refined_results=()):
            self.coordinate_system, self.gap_threshold, self.dist_cutoff = coordinate_system, gap_threshold, dist_cutoff
            self.given = minimization_results
            self.refined_results = refined_results

        minimization_results = property(lambda self: self.given)

    from fsc.hdf5_io import _subscribe
    for tag, c in list(_subscribe.SERIALIZE_MAPPING.items()):
        if c is cls:
            _subscribe.SERIALIZE_MAPPING[tag] = Any
    src = Any(coordinate_system=cs, minimization_results=results, gap_threshold=vc.real('threshold'), dist_cutoff=vc.real('cutoff'), refined_results=refined)
    got = roundtrip(vc, loader, src)
    vc.prove('the coordinate system is the saved one', eq(vc, cs, got.coordinate_system))
    vc.prove('the threshold and the cutoff are the saved ones', z3.And(eq(vc, src.gap_threshold, got.gap_threshold), eq(vc, src.dist_cutoff, got.dist_cutoff)))
    vc.prove('it is built from the saved results, in order', eq(vc, results, got.given))
    vc.prove('it is built from the saved refined positions, in order', eq(vc, refined, got.refined_results))


# ----------------------------------------------------------------------- C23
FUN_ID = [ICONT + '.IdentificationResult.' + n for n in ('__init__', 'to_hdf5', 'from_hdf5')]
FUN_SHAPE = [SHAPES + '.NodalLine.' + n for n in ('__init__', 'to_hdf5', 'from_hdf5')] + [SHAPES + '.NodalPoint.__init__']


def points(vc, dim, name='p'):
    cols = [z3.Function('{}!{}'.format(name, k), z3.IntSort(), z3.RealSort()) for k in range(dim)]
    return SymSeq.new(lambda k: tuple(S(c(k)) for c in cols), name)


def identification(vc, loader, shape, dim, dimension='pick', positions=None):
    cls = loader.get(ICONT, 'IdentificationResult')
    positions = points(vc, dim) if positions is None else positions
    if dimension == 'pick':
        dimension = None if vc.choose('undetermined') else vc.int('dimension', 0, 3)
    return call(vc, cls, positions=positions, dimension=dimension, shape=shape)


def graph_of(vc, num, dim, nx):
    """Any graph with num nodes at any (distinct) positions."""
    g = nx.Graph()
    nodes = [tuple(vc.real('n') for _ in range(dim)) for _ in range(num)]
    for i, a in enumerate(nodes):
        for b in nodes[:i]:
            vc.assume(z3.Or([lift(x) != lift(y) for x, y in zip(a, b)]))
    g.add_nodes_from(nodes)
    for i in range(num):
        for j in range(i):
            if vc.choose('edge'):
                g.add_edge(nodes[i], nodes[j])
    return g


def check_identification(vc, want, got, name='IdentificationResult'):
    vc.prove('it is an identified object', z3.BoolVal(type(got).__name__ == name))
    vc.prove('the positions are the saved ones, in order', eq(vc, want.positions, got.positions))
    vc.prove('the dimension is the saved one', eq(vc, want.dimension, got.dimension))
    vc.prove('the shape is the saved one', eq(vc, want.shape, got.shape))


def with_point(dim):

    def check(vc):
        loader = loader_for(vc)
        shape = call(vc, loader.get(SHAPES, 'NodalPoint'), position=tuple(vc.real('x') for _ in range(dim)) if vc.choose('tuple') else vector(vc, 'x', dim)) if vc.choose('point') else None
        if shape is not None and vc.choose('alone'):
            got = roundtrip(vc, loader, shape)
            vc.prove('the shape is the saved one', eq(vc, shape, got))
            return
        r = identification(vc, loader, shape, dim)
        got = roundtrip(vc, loader, r)
        check_identification(vc, r, got)

    return check


for _dim in (1, 2, 3):
    spec('C23', name='point_{}d'.format(_dim), functions=FUN_ID + FUN_SHAPE[-1:], trusted=TRUST, seconds=40, scope='any number of positions, dimension {}, a point or no shape'.format(_dim))(with_point(_dim))


def with_line(num, dim):

    def check(vc):
        import networkx as nx
        loader = loader_for(vc)
        g = graph_of(vc, num, dim, nx)
        counts = collections.Counter({d: vc.int('count', 1) for d in ((), (1, ), (1, 3), (3, 0, 5))[vc.pick(4)]})
        shape = call(vc, loader.get(SHAPES, 'NodalLine'), graph=g, degree_count=counts)
        r = identification(vc, loader, shape, dim, dimension=1)
        got = roundtrip(vc, loader, r)
        check_identification(vc, r, got)
        vc.prove('the name of the shape is the same', z3.BoolVal(got.shape is not None and got.shape.shape_name == shape.shape_name))

    return check


for _num, _dim in ((1, 2), (2, 1), (3, 2)):
    spec('C23', name='line_{}_{}d'.format(_num, _dim), functions=FUN_ID + FUN_SHAPE, trusted=TRUST + ['networkx is executed as it is installed'], seconds=60, max_paths=20000,
         scope='lines with {} nodes and any edges, dimension {}, any degree counts with up to three entries'.format(_num, _dim))(with_line(_num, _dim))


class AnyGraph:
    """A graph with any number of nodes and edges: records what it is built from."""

    def __init__(self, *args):
        if args:
            raise core.Unsupported('graph from data')
        self.nodes, self.edges = [], []

    def add_nodes_from(self, nodes):
        if self.nodes:
            raise core.Unsupported('more nodes')
        self.nodes = nodes

    def add_edges_from(self, edges):
        if self.edges:
            raise core.Unsupported('more edges')
        self.edges = edges

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported('graph.{}'.format(name))


def line_any(dim):

    def check(vc):
        vc.coupled = 'how the graph is built'
        loader = loader_for(vc, networkx=shims.module('networkx', Graph=AnyGraph))
        g = AnyGraph()
        g.nodes = points(vc, dim, 'n')
        a, b = points(vc, dim, 'a'), points(vc, dim, 'b')
        g.edges = SymSeq(a.n, lambda k: (a.at(k), b.at(k)), name='edges')
        want = types.SimpleNamespace(nodes=g.nodes, edges=g.edges)
        shape = call(vc, loader.get(SHAPES, 'NodalLine'), graph=g, degree_count=collections.Counter({1: vc.int('count', 1), 3: vc.int('count', 1)}))
        got = roundtrip(vc, loader, shape)
        vc.prove('the nodes are the saved ones', eq(vc, want.nodes, got.graph.nodes))
        if isinstance(got.graph.edges, SymSeq):
            vc.prove('the edges are the saved ones', eq(vc, want.edges, got.graph.edges))
        else:
            vc.prove('there are no edges only if there were none', z3.And(z3.BoolVal(got.graph.edges == []), a.n == 0))
        vc.prove('the degree counts are the saved ones', eq(vc, dict(shape.degree_count), dict(got.degree_count)))

    return check


for _dim in (1, 2, 3):
    spec('C23', name='line_any_{}d'.format(_dim), functions=FUN_SHAPE, trusted=TRUST, seconds=40, scope='lines with any number of nodes and edges, dimension {}'.format(_dim))(line_any(_dim))


FUN_IC = [ICONT + '.IdentificationResultContainer.' + n for n in ('__init__', '__iter__', '__getitem__', '__len__')]


@spec('C23', functions=FUN_IC + FUN_ID + FUN_SHAPE, trusted=TRUST + ['networkx is executed as it is installed'], seconds=60, max_paths=20000, scope='at most three objects of different kinds, dimension 2')
def whole_identification(vc):
    import networkx as nx
    loader = loader_for(vc)
    g = nx.Graph()
    a, b = (vc.real('n'), vc.real('n')), (vc.real('n'), vc.real('n'))
    vc.assume(z3.Or([lift(x) != lift(y) for x, y in zip(a, b)]))
    g.add_nodes_from([a, b])
    if vc.choose('edge'):
        g.add_edge(a, b)
    shapes = [lambda: None, lambda: loader.get(SHAPES, 'NodalPoint')(position=(vc.real('x'), vc.real('x'))), lambda: loader.get(SHAPES, 'NodalLine')(graph=g, degree_count=collections.Counter({1: 2}))]
    order = [(), (0, ), (1, ), (2, ), (0, 1, 2), (2, 0, 1)][vc.pick(6)]
    objs = [identification(vc, loader, shapes[k](), 2, dimension=[None, 0, 1][k]) for k in order]
    cs = call(vc, loader.get(CSYS, 'CoordinateSystem'), limits=[(vc.real('l'), vc.real('l')) for _ in range(2)], periodic=vc.choose('periodic'))
    cont = call(vc, loader.get(ICONT, 'IdentificationResultContainer'), coordinate_system=cs, results=objs, feature_size=vc.real('size'))
    got = roundtrip(vc, loader, cont)
    vc.prove('it is an identification result', z3.BoolVal(type(got).__name__ == 'IdentificationResultContainer'))
    vc.prove('the coordinate system is the saved one', eq(vc, cs, got.coordinate_system))
    vc.prove('the feature size is the saved one', eq(vc, cont.feature_size, got.feature_size))
    vc.prove('the number of objects is the saved one', z3.BoolVal(len(got) == len(objs) and len(got.results) == len(objs)))
    vc.prove('the objects are the saved ones, in order', z3.And([eq(vc, x, y) for x, y in zip(objs, got)] + [eq(vc, x, got[k]) for k, x in enumerate(objs)] if len(got) == len(objs) else [z3.BoolVal(False)]))


@spec('C23', functions=FUN_IC, trusted=TRUST_LIST, seconds=60, scope='any number of objects, each with any number of positions, dimension 2')
def identification_any(vc):
    loader = loader_for(vc)
    cls, point = loader.get(ICONT, 'IdentificationResult'), loader.get(SHAPES, 'NodalPoint')
    x, y = (z3.Function(n, z3.IntSort(), z3.IntSort(), z3.RealSort()) for n in 'xy')
    num = z3.Function('num', z3.IntSort(), z3.IntSort())
    dim = z3.Function('dim', z3.IntSort(), z3.IntSort())
    kind = vc.pick(3, 'kind')

    def one(k):
        vc.fact(num(k) >= 0)
        pos = SymSeq(num(k), lambda j: (S(x(k, j)), S(y(k, j))), name='positions')
        return cls(positions=pos, dimension=None if kind == 0 else S(dim(k)), shape=None if kind < 2 else point(position=(S(x(k, 0)), S(y(k, 0)))))

    objs = SymSeq.new(one, 'objects')
    cs = call(vc, loader.get(CSYS, 'CoordinateSystem'), limits=[(vc.real('l'), vc.real('l')) for _ in range(2)], periodic=vc.choose('periodic'))
    cont = call(vc, loader.get(ICONT, 'IdentificationResultContainer'), coordinate_system=cs, results=objs, feature_size=vc.real('size'))
    got = roundtrip(vc, loader, cont)
    vc.prove('the feature size is the saved one', eq(vc, cont.feature_size, got.feature_size))
    vc.prove('the objects are the saved ones, in order', eq(vc, objs, got.results))
