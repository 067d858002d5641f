"""
C20: the state a search starts from; C21: the save file at every instant.
"""
import os as real_os
import types

import numpy
import z3

from pyvc import core, load, shims
from pyvc.core import S, lift
from pyvc.seq import SymSeq
from . import spec
from .coord import call
from .control import (MOD, CTL, TRUST, Env, Container, Old, old_result, loader_for, controller, simplex, norm, key, Fixed, finished, FUNS)

STATE = 'nodefinder.search.result._controller_state.ControllerState.'
FUN20 = [CTL + n for n in ('__init__', 'create_state', 'check_dimensions', 'get_initial_simplices')]


# ----------------------------------------------------------------------- C20
class Mesh:
    """Contract of _generate_mesh_simplices (C18): the mesh for what it is called with."""

    def __init__(self, dim):
        self.calls = []
        self.simplices = numpy.array([simplex(dim, x) for x in (10., 30., 50.)])

    def __call__(self, limits, mesh_size, periodic):
        self.calls.append((limits, mesh_size, periodic))
        return self.simplices.copy()

    def right(self, limits, sizes, periodic):
        if len(self.calls) != 1:
            return z3.BoolVal(False)
        lim, size, per = self.calls[0]
        if len(size) != len(sizes):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(numpy.array_equal(numpy.array(lim, dtype=float), numpy.array(limits, dtype=float)) and bool(per) == periodic)] + [lift(a) == lift(b) for a, b in zip(size, sizes)])


def start(vc, env, dim, old, cls=Container, **kw):
    mesh = Mesh(dim)
    files = dict(loads=[])

    def load_file(path):
        files['loads'].append(path)
        if files.get('error') is not None:
            raise files['error']
        return files['content']

    def missing(*a, **k):
        raise core.Unsupported('saving')

    files.update(kw.pop('files', {}))
    loader = loader_for(env, cls, **{
        'nodefinder.io': shims.module('nodefinder.io', load=load_file, save=missing),
        'nodefinder.search._mesh_helper': shims.module('nodefinder.search._mesh_helper', _generate_mesh_simplices=mesh)
    })
    one = vc.choose('one_size')
    n = vc.int('mesh', low=1)
    sizes = [n] * dim if one else [vc.int('mesh', low=1) for _ in range(dim)]
    limits = [(float(10 * i), float(100 + i)) for i in range(dim)]
    periodic = vc.choose('periodic')
    args = dict(dim=dim, loader=loader, initial_mesh_size=n if one else tuple(sizes), periodic=periodic, limits=limits, save_file='/nowhere/state.hdf5', gap_threshold=0.25, feature_size=6.)
    args.update(kw)
    build = lambda: controller(env, old, **args)
    return build, mesh, files, limits, sizes, periodic


def settings(vc, ctl, limits, periodic):
    cont = ctl.state.result
    vc.prove('the new gap threshold and cutoff are used', z3.BoolVal(cont.gap_threshold == 0.25 and cont.dist_cutoff == 2.))
    cs = cont.coordinate_system
    vc.prove('the coordinate system of this search is used', z3.BoolVal(numpy.array_equal(numpy.array(cs.limits, dtype=float), numpy.array(limits)) and bool(cs.periodic) == periodic))


def drain(q, running):
    res = []
    while q.has_queued:
        x = q.pop_queued()
        res.append(x)
        if running:
            q.set_finished(x)
    return res


def resumed(dim):

    def check(vc):
        env = Env(vc, 1)
        results = [types.SimpleNamespace(pos=numpy.array([20. + 110. * k] * dim), value=0.2, node=vc.choose('node'), tag=k) for k in range(vc.pick(3, 'results'))]
        for k, r in enumerate(results):
            r.success = r.node or k != 0
        refined = [numpy.array([40. - 70. * k] * dim) for k in range(vc.pick(3, 'refined'))]
        positions = [tuple([60. + 70. * k] * dim) for k in range(vc.pick(3, 'positions'))]
        queued = [simplex(dim, x) for x in (80., 30.)][:vc.pick(3, 'simplices')]
        old = Old(queued, positions, results, refined)
        same = vc.pick(4, 'same') if len(results) + len(refined) + len(positions) + len(queued) <= 2 else 0
        if same:
            # the same settings, but another box
            old.result.gap_threshold, old.result.dist_cutoff = 0.25, 2.
            if same == 3:
                old.result.gap_threshold, old.result.dist_cutoff = 0.125, 9.
            if same >= 2:
                old.result.coordinate_system.limits = numpy.array([[10. * i, 100. + i] for i in range(dim)])
        before = {k: list(v) for k, v in (('simplices', queued), ('positions', positions), ('results', results), ('refined', refined))}
        force = vc.choose('force')
        loading = vc.choose('load')
        build, mesh, files, limits, sizes, periodic = start(vc, env, dim, None if loading else old, force_initial_mesh=force, load=loading, load_quiet=vc.choose('quiet'), files=dict(content=old))
        if same:
            old.result.coordinate_system.periodic = periodic == (same == 1)
        ctl = build()
        vc.prove('the given file is loaded, if asked to', z3.BoolVal(files['loads'] == (['/nowhere/state.hdf5'] if loading else [])))
        cont = ctl.state.result
        settings(vc, ctl, limits, periodic)
        vc.prove('every minimization result is kept, once', z3.BoolVal(len(cont.added) == len(results) and all(a is b for a, b in zip(cont.added, old.result.minimization_results))))
        vc.prove('every refined position is kept, once', z3.BoolVal([key(p) for p in cont.refined] == [key(p) for p in refined]))
        pos = drain(ctl.state.position_queue, False)
        vc.prove('every position to be refined is kept, in order', z3.BoolVal([tuple(p) for p in pos] == positions))
        got = [norm(s) for s in drain(ctl.state.simplex_queue, True)]
        want = [norm(s) for s in queued]
        if force:
            vc.prove('the initial mesh is the one for the settings', mesh.right(limits, sizes, periodic))
            want += [norm(s) for s in mesh.simplices if norm(s) not in want]
        vc.prove('the simplices are the earlier ones, and the initial mesh only if asked to', z3.BoolVal(got == want))
        vc.prove('the earlier state is not modified', z3.BoolVal(
            old.simplex_queue.objects == before['simplices'] and old.position_queue.objects == before['positions'] and set(map(id, old.result.minimization_results)) == set(map(id, before['results'])) and len(old.result.minimization_results) == len(results)
            and len(old.result.refined_results) == len(before['refined'])))

    return check


for _dim in (1, 2):
    spec('C20', name='resumed_{}d'.format(_dim), functions=FUN20, seconds=90, max_paths=20000, reals=False, trusted=TRUST[:1] + ['contract of the initial mesh as in C18', 'contract of io.load as in C22'],
         scope='states with at most two of everything, dimension {}'.format(_dim))(resumed(_dim))


def fresh(dim):

    def check(vc):
        env = Env(vc, 1)
        loading, quiet = vc.choose('load'), vc.choose('quiet')
        # there is no file, or it is not understood
        missing = vc.choose('missing')
        error = FileNotFoundError('no file') if missing else [KeyError, ValueError][vc.pick(2, 'error')]('not a state')
        kw = dict(limits=[(100. + i, 10. * i) for i in range(dim)]) if vc.choose('reversed') else {}
        build, mesh, files, limits, sizes, periodic = start(vc, env, dim, None, load=loading, load_quiet=quiet, force_initial_mesh=vc.choose('force'), files=dict(error=error), **kw)
        raised = None
        try:
            ctl = build()
        except (OSError, KeyError, ValueError) as exc:
            raised = exc
        vc.prove('a missing file is an error exactly if this was asked for, and one without a state is an error', z3.BoolVal((raised is error) == (loading and (not quiet or not missing))))
        if raised is not None:
            return
        settings(vc, ctl, limits, periodic)
        cont = ctl.state.result
        vc.prove('it starts without results', z3.BoolVal(not cont.added and not cont.refined))
        vc.prove('it starts without positions', z3.BoolVal(not drain(ctl.state.position_queue, False)))
        vc.prove('the initial mesh is the one for the settings', mesh.right(limits, sizes, periodic))
        vc.prove('it starts with exactly the initial mesh', z3.BoolVal([norm(s) for s in drain(ctl.state.simplex_queue, True)] == [norm(s) for s in mesh.simplices]))

    return check


for _dim in (1, 2, 3):
    spec('C20', 'C18', name='fresh_{}d'.format(_dim), functions=FUN20, seconds=60, reals=False, trusted=['contract of the initial mesh as in C18'], scope='dimension {}, any mesh size'.format(_dim))(fresh(_dim))


@spec('C20', functions=FUN20, seconds=60, reals=False, scope='inconsistent arguments')
def value_errors(vc):
    env = Env(vc, 1)
    dim = 1 + vc.pick(3, 'dim')
    if vc.choose('both'):
        build = start(vc, env, dim, Old(), load=True, load_quiet=vc.choose('quiet'), files=dict(content=Old()))[0]
        what = 'a state and a request to load one'
    else:
        n = 1 + vc.pick(4, 'length')
        if n == dim:
            raise core.PathEnd()
        build = start(vc, env, dim, Old() if vc.choose('state') else None, initial_mesh_size=tuple(3 for _ in range(n)))[0]
        what = 'a mesh size which does not match the dimension'
    try:
        build()
    except ValueError:
        vc.prove('ValueError for {}'.format(what), z3.BoolVal(True))
    else:
        vc.fail('ValueError for {}'.format(what))


class Recorded:
    """Records what it is built from, of any length."""
    env = None

    def __init__(self, *, coordinate_system, minimization_results=(), gap_threshold, dist_cutoff, refined_results=()):
        self.coordinate_system, self.gap_threshold, self.dist_cutoff = coordinate_system, gap_threshold, dist_cutoff
        self.given, self.refined = minimization_results, refined_results
        self.needs_saving = True

    def __getattr__(self, name):
        raise core.Unsupported('use of {} of the result container'.format(name))


def recorded_queue(log):

    class Queue:
        def __init__(self, objects=frozenset()):
            self.given = [objects]
            self.needs_saving = True

        def add_objects(self, objects):
            self.given.append(objects)

        def __getattr__(self, name):
            raise core.Unsupported('use of {} of the queue'.format(name))

    return Queue


def same_seq(got, want):
    """The same elements in the same order."""
    if got is want:
        return z3.BoolVal(True)
    if not isinstance(got, SymSeq):
        raise core.Unsupported('another kind of sequence')
    k = want.some()
    ok = z3.And(got.n == want.n, z3.Implies(want.member(k), got.member(k)))
    a, b = got.at(k), want.at(k)
    if not isinstance(a, S):
        raise core.Unsupported('other elements')
    return z3.And(ok, z3.Implies(want.member(k), lift(a) == lift(b)))


@spec('C20', functions=FUN20, seconds=60, trusted=['contracts of the result container and the queues: they hold what they are built from (C09, C11)', 'contract of the initial mesh as in C18'],
      scope='states of any size')
def resumed_any(vc):
    env = Env(vc, 1)
    vc.coupled = 'arguments of the constructors'
    opaque = lambda name: SymSeq.new(lambda k: S(k), name)
    old = types.SimpleNamespace(simplex_queue=types.SimpleNamespace(objects=opaque('simplices')), position_queue=types.SimpleNamespace(objects=opaque('positions')),
                                result=old_result(opaque('results'), opaque('refined'), gap_threshold=vc.real('old_threshold'), dist_cutoff=vc.real('old_cutoff')))
    vc.assume(old.result.gap_threshold > 0, old.result.dist_cutoff > 0)
    force = vc.choose('force')
    build, mesh, files, limits, sizes, periodic = start(vc, env, 2, old, cls=Recorded, force_initial_mesh=force)
    mod = 'nodefinder.search._queue'
    orig = load.Loader.__init__

    def init(self, stubs=None, builtin_stubs=None):
        orig(self, dict(stubs or {}, **{mod: shims.module(mod, SimplexQueue=recorded_queue([]), PositionQueue=recorded_queue([]))}), builtin_stubs)

    load.Loader.__init__ = init
    try:
        build, mesh, files, limits, sizes, periodic = start(vc, env, 2, old, cls=Recorded, force_initial_mesh=force)
        ctl = build()
    finally:
        load.Loader.__init__ = orig
    st = ctl.state
    vc.prove('every minimization result is passed to the new container', same_seq(st.result.given, old.result.minimization_results))
    vc.prove('every refined position is passed to the new container', same_seq(st.result.refined, old.result.refined_results))
    vc.prove('the new position queue is made of the old one', z3.And(len(st.position_queue.given) == 1, same_seq(st.position_queue.given[0], old.position_queue.objects)))
    given = st.simplex_queue.given
    vc.prove('the new simplex queue is made of the old one', same_seq(given[0], old.simplex_queue.objects))
    vc.prove('the initial mesh is added only if asked to', z3.BoolVal(len(given) == (2 if force else 1) and all(numpy.array_equal(g, mesh.simplices) for g in given[1:])))
    if force:
        vc.prove('the initial mesh is the one for the settings', mesh.right(limits, sizes, periodic))
    settings(vc, ctl, limits, periodic)


# ----------------------------------------------------------------------- C21
class Fault(OSError):
    pass


class SaveError(Exception):
    pass


SAVE = '/some/dir/state.hdf5'


class Files:
    """A file system where every operation may fail; looked at after each."""

    def __init__(self, vc, faults, save_file=SAVE):
        self.vc, self.faults = vc, faults
        self.save_file = self.abs(save_file)
        self.content = {self.save_file: 'old'} if vc.choose('exists') else {}
        self.before = self.content.get(self.save_file)
        self.current = lambda: None
        self.failed = False
        self.number = 0
        self.writes = 0

    def abs(self, path):
        return real_os.path.normpath(real_os.path.join('/cwd', path))

    def fault(self, what, exc=Fault):
        if self.faults and self.vc.choose('fault'):
            self.faults -= 1
            self.failed = True
            raise exc(what)

    def look(self):
        """The invariant at every instant."""
        now = self.content.get(self.save_file)
        ok = now == self.before or isinstance(now, tuple) and now[0] == 'complete'
        self.vc.prove('the save file is what it was before or a complete state of this search, at every instant', z3.BoolVal(ok))

    # -- io
    def save(self, obj, path):
        path = self.abs(path)
        if not isinstance(obj, type(self.state)) or obj is not self.state:
            raise core.Unsupported('another object is saved')
        self.writes += 1
        self.fault('save', SaveError)
        self.content[path] = 'incomplete'
        self.look()
        self.fault('save', SaveError)
        self.content[path] = ('complete', self.current())
        self.look()

    # -- os
    def rename(self, a, b):
        a, b = self.abs(a), self.abs(b)
        self.fault('rename')
        if a not in self.content:
            raise FileNotFoundError(a)
        if real_os.path.dirname(a) != real_os.path.dirname(b):
            self.cross = True
            raise OSError(18, 'Invalid cross-device link')
        self.content[b] = self.content.pop(a)
        self.look()

    def remove(self, path):
        path = self.abs(path)
        if path not in self.content:
            raise FileNotFoundError(path)
        del self.content[path]
        self.look()

    def move(self, a, b):
        a, b = self.abs(a), self.abs(b)
        if real_os.path.dirname(a) == real_os.path.dirname(b):
            return self.rename(a, b)
        self.fault('move')
        self.content[b] = 'incomplete'
        self.look()
        self.content[b] = self.content.pop(a)
        self.look()

    def copyfile(self, a, b, **kw):
        a, b = self.abs(a), self.abs(b)
        self.fault('copy')
        if a not in self.content:
            raise FileNotFoundError(a)
        if a == b:
            raise OSError('the same file')
        self.content[b] = 'incomplete'
        self.look()
        self.fault('copy')
        self.content[b] = self.content[a]
        self.look()
        return b

    def new(self, dir_, prefix='tmp', suffix=''):
        self.fault('create')
        self.number += 1
        path = real_os.path.join(self.abs('/tmp' if dir_ is None else dir_), '{}{}{}'.format(prefix or 'tmp', self.number, suffix or ''))
        self.content[path] = 'empty'
        self.look()
        return path

    def os_module(self):
        mod = types.ModuleType('os')
        mod.path = types.SimpleNamespace(**{n: getattr(real_os.path, n) for n in ('dirname', 'basename', 'join', 'split', 'splitext', 'normpath', 'isabs')})
        mod.path.abspath = mod.path.realpath = self.abs
        mod.path.exists = mod.path.isfile = lambda p: self.abs(p) in self.content
        mod.rename = mod.replace = self.rename
        mod.remove = mod.unlink = self.remove
        mod.close = lambda fd: None
        mod.fsync = lambda fd: None
        mod.getcwd = lambda: '/cwd'
        mod.sep = '/'
        mod.fspath = real_os.fspath
        mod.getpid = lambda: 1

        def missing(name):
            raise core.Unsupported('os.{}'.format(name))

        mod.__getattr__ = missing
        return mod

    def tempfile_module(self):
        files = self

        class NamedTemporaryFile:
            def __init__(self, mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **kw):
                self.name, self.delete = files.new(dir, prefix, suffix), delete
                self.closed = False

            def close(self):
                if not self.closed:
                    self.closed = True
                    if self.delete:
                        files.remove(self.name)

            def flush(self):
                pass

            def fileno(self):
                return 3

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                self.close()

            def __getattr__(self, name):
                raise core.Unsupported('{} of a temporary file'.format(name))

        def mkstemp(suffix=None, prefix=None, dir=None, text=False):
            return 3, files.new(dir, prefix, suffix)

        def missing(name):
            raise core.Unsupported('tempfile.{}'.format(name))

        mod = types.ModuleType('tempfile')
        mod.NamedTemporaryFile, mod.mkstemp = NamedTemporaryFile, mkstemp
        mod.__getattr__ = missing
        return mod

    def temporary(self):
        return [p for p in self.content if p != self.save_file]

    def stubs(self):
        shutil = types.ModuleType('shutil')
        shutil.move = self.move
        shutil.copyfile = shutil.copy = shutil.copy2 = self.copyfile

        def missing(name):
            raise core.Unsupported(name)

        shutil.__getattr__ = missing
        contextlib = __import__('contextlib')

        def no_load(path):
            raise core.Unsupported('loading')

        def no_open(*a, **k):
            raise core.Unsupported('open')

        return {'os': self.os_module(), 'os.path': self.os_module().path, 'tempfile': self.tempfile_module(), 'shutil': shutil, 'contextlib': contextlib,
                'nodefinder.io': shims.module('nodefinder.io', save=self.save, load=no_load)}


def saving_controller(vc, env, files, old=None, **kw):
    loader = loader_for(env, **files.stubs())
    ctl = controller(env, old or Old([simplex(1, 10.)]), loader=loader, **kw)
    files.state = ctl.state
    files.current = lambda: snapshot(ctl.state)
    return ctl


def snapshot(state):
    return (len(state.result.added), tuple(key(p) for p in state.result.refined), tuple(sorted(norm(s) for s in state.simplex_queue.objects)), tuple(tuple(p) for p in state.position_queue.objects))


FUN21 = [CTL + 'save', STATE + 'needs_saving', STATE + '__init__']


def mark(ctl, vc):
    """Some of the parts change (or nothing); gives whether something did."""
    parts = [ctl.state.result, ctl.state.simplex_queue, ctl.state.position_queue]
    k = vc.pick(4, 'changed')
    for n, p in enumerate(parts):
        p.needs_saving = n == k
    return k < 3


def single_save(save_file):

    def check(vc):
        env = Env(vc, 1)
        files = Files(vc, faults=1, save_file=save_file)
        ctl = saving_controller(vc, env, files, save_file=save_file)
        for step in range(2):
            changed = mark(ctl, vc) if step else True
            if not step:
                vc.prove('a new search has to be saved', z3.BoolVal(bool(ctl.state.needs_saving)))
            was = dict(files.content)
            num, files.failed, files.before = files.writes, False, files.content.get(files.save_file)
            raised = None
            try:
                ctl.save()
            except (Fault, SaveError, OSError) as exc:
                raised = exc
            except AssertionError as exc:
                vc.real_exception('no assertion in the code fails', exc)
                return
            vc.prove('a failed save raises, another one does not', z3.BoolVal((raised is not None) == files.failed))
            vc.prove('no temporary file is left behind', z3.BoolVal(not files.temporary()))
            if raised is not None:
                vc.prove('a failed save leaves the save file untouched', z3.BoolVal(files.content == was))
                vc.prove('after a failed save the state is still to be saved', z3.BoolVal(bool(ctl.state.needs_saving)))
            elif changed:
                vc.prove('a save writes the current state if something changed', z3.BoolVal(files.content == {files.save_file: ('complete', files.current())}))
                vc.prove('a state which was written is not marked as changed', z3.BoolVal(not ctl.state.needs_saving and not ctl.state.result.needs_saving and not ctl.state.simplex_queue.needs_saving and not ctl.state.position_queue.needs_saving))
            else:
                vc.prove('nothing is written if nothing changed', z3.BoolVal(files.content == was and files.writes == num))

    return check


for _name, _path in (('absolute', SAVE), ('relative', 'sub/state.hdf5'), ('cwd', 'state.hdf5')):
    spec('C21', name='save_{}'.format(_name), functions=FUN21, seconds=60, reals=False, scope='every fault of every operation (one at a time), any state; path {}'.format(_path),
         trusted=['contract of rename: atomic, within a directory', 'contract of io.save: writes a complete state, or raises', 'contract of tempfile'])(single_save(_path))


@spec('C21', functions=FUN21, seconds=30, reals=False, scope='no save file')
def no_save_file(vc):
    env = Env(vc, 1)
    files = Files(vc, faults=0)
    ctl = saving_controller(vc, env, files, save_file=[None, ''][vc.pick(2, 'none')])
    mark(ctl, vc)
    ctl.save()
    vc.prove('nothing is written without a save file', z3.BoolVal(not files.writes and not files.temporary()))


def whole_search(num, limit, fails):

    def check(vc):
        env = Env(vc, limit, idle=0)
        env.initial = []
        env.periodic = 2
        files = Files(vc, faults=0)
        left = [1, int(fails)]
        env.outcome = lambda run: types.SimpleNamespace(pos=numpy.array([50. + run.number]), node=run.number == 0)

        def bad(run):
            res = bool(left[1] and vc.choose('fails'))
            left[1] -= res
            return res

        env.fails = bad
        stencil = numpy.array([[[0.25], [0.5]]])
        ctl = saving_controller(vc, env, files, Old([simplex(1, 10. * k) for k in range(num)]), save_file=SAVE, refinement_stencil=stencil, simplex_check_cutoff=5, num_minimize_parallel=limit, recheck_pos_dist=False)
        env.drive(ctl.run())
        vc.prove('when the search ends the file contains the final state', z3.BoolVal(files.content == {files.save_file: ('complete', files.current())}))

    return check


for _num, _lim, _fail in ((1, 1, True), (2, 1, False), (2, 2, True)):
    spec('C21', name='search_{}_simplices_{}_parallel'.format(_num, _lim), functions=FUN21 + FUNS, seconds=60, max_paths=20000, reals=False, trusted=TRUST, scope='{} simplices, saved at up to two instants and at the end'.format(_num))(whole_search(_num, _lim, _fail))


# ------------------------------------------- C21: what marks the state as changed
def marking_queue(cls_name, dim):
    """Whatever changes the objects which are to be saved marks the queue."""

    def check(vc):
        cls = load.Loader().get('nodefinder.search._queue', cls_name)
        simplices = cls_name == 'SimplexQueue'

        def new(name):
            one = lambda: [vc.real(name) for _ in range(dim)]
            return [one() for _ in range(dim + 1)] if simplices else one()

        q = call(vc, cls)
        vc.prove('a new queue has to be saved', z3.BoolVal(bool(q.needs_saving)))
        first = new('first')
        call(vc, q.add_objects, [first])
        if simplices and vc.choose('running'):
            q.pop_queued()
        for _ in range(2):
            q.needs_saving = False
            vc.prove('what was saved is not marked', z3.BoolVal(not q.needs_saving))
            num = len(q.objects)
            op = vc.pick(3, 'operation')
            if op == 0:
                call(vc, q.add_objects, [new('x') for _ in range(vc.pick(2, 'number'))])
            elif op == 1 and q.has_queued:
                got = call(vc, q.pop_queued)
                if simplices and vc.choose('saved'):
                    q.needs_saving = False
                    num = len(q.objects)
                    call(vc, q.set_finished, got)
            else:
                return
            vc.prove('a queue whose objects changed is marked as changed', z3.BoolVal(len(q.objects) == num or bool(q.needs_saving)))

    return check


for _cls, _dim in (('PositionQueue', 1), ('PositionQueue', 2), ('SimplexQueue', 1)):
    spec('C21', name='changed_{}_{}d'.format(_cls, _dim), functions=['nodefinder.search._queue.' + n for n in ('ObjectQueue.__init__', 'ObjectQueue.add_objects', 'PositionQueue.pop_queued', 'RunningQueue.set_finished')],
         seconds=60, max_paths=20000, scope='dimension {}, up to four objects, two operations'.format(_dim))(marking_queue(_cls, _dim))


def marking_results(dim, periodic):
    """Any further result or refined position marks the container."""

    def check(vc):
        from .cells import World
        from .container import result
        w = World(vc, dim, periodic=periodic)
        cont = w.container(minimization_results=[result(w, 'old')][:vc.pick(2, 'earlier')])
        vc.prove('a new container has to be saved', z3.BoolVal(bool(cont.needs_saving)))
        cont.needs_saving = False
        if vc.choose('result'):
            call(vc, cont.add_result, result(w, 'new'))
            vc.prove('a container with a new result is marked as changed', z3.BoolVal(bool(cont.needs_saving)))
        else:
            call(vc, cont.set_refined, w.position('refined'))
            vc.prove('a container with a new refined position is marked as changed', z3.BoolVal(bool(cont.needs_saving)))

    return check


for _dim in (1, 2):
    for _per in (False, True):
        spec('C21', name='changed_results_{}d_{}'.format(_dim, 'periodic' if _per else 'open'), functions=['nodefinder.search.result._search_result_container.SearchResultContainer.' + n for n in ('__init__', 'add_result', 'set_refined')],
             seconds=60, scope='dimension {}, any result or position'.format(_dim))(marking_results(_dim, _per))
