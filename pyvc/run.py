"""run.py PROPERTY TIER OUT: verify the contracts a property depends on."""
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)

import warnings
warnings.simplefilter('ignore')


JOBS = int(os.environ.get('PYVC_JOBS', '6'))


def verify(spec, tier, seconds):
    """One specification (in its own process)."""
    from pyvc import core
    vc = core.VC(spec.name, time.time() + seconds, max_paths=spec.max_paths, timeout=spec.timeout)
    vc.expected_names = spec.expected
    vc.tier = tier
    vc.functions.update(spec.functions)
    vc.trusted.update(spec.trusted)
    t0 = time.time()
    try:
        res = vc.run(spec.fct)
    except Exception:  # pylint: disable=broad-except
        res = [dict(name=spec.name, status='undecided', reason='engine: ' + traceback.format_exc()[-600:])]
    for ob in res:
        ob['scope'] = spec.scope
        if ob['status'] == 'refuted' and spec.replay is not None:
            try:
                ob['replayed'], ob['replay'] = spec.replay(ob)
            except Exception:  # pylint: disable=broad-except
                ob['replay'] = 'replay failed: ' + traceback.format_exc()[-300:]
    return dict(obligations=res, trusted=sorted(vc.trusted), functions=sorted(vc.functions), solver_s=vc.solver_s, paths=vc.paths,
                queries=vc.queries, s=time.time() - t0, unsupported=vc.unsupported[:5])


def child(spec, tier, seconds, path):
    try:
        res = verify(spec, tier, seconds)
    except BaseException:  # pylint: disable=broad-except
        res = dict(obligations=[dict(name=spec.name, status='undecided', reason='engine: ' + traceback.format_exc()[-600:])],
                   trusted=[], functions=[], solver_s=0., paths=0, queries=0, s=0., unsupported=[])
    with open(path, 'w') as f:
        json.dump(res, f, default=str)


def main():
    prop, tier, out = sys.argv[1:4]
    from pyvc import core
    obligations, trusted, functions, notes = [], set(), set(), []
    solver_s = 0.
    try:
        contracts = importlib.import_module('contracts')
        specs = contracts.specs_for(prop, tier)
    except Exception:  # pylint: disable=broad-except
        specs = []
        notes.append('loading the contracts failed: ' + traceback.format_exc()[-800:])
        if os.environ.get('PYVC_VERBOSE'):
            traceback.print_exc()
    only = os.environ.get('PYVC_ONLY')
    specs = [s for s in specs if not only or only in s.name]
    t_end = time.time() + (230 if tier == 'quick' else 1400)
    tmp = tempfile.mkdtemp(prefix='pyvc')
    # the longest first
    todo = sorted(range(len(specs)), key=lambda k: -specs[k].seconds)
    running, results = {}, {}
    try:
        while todo or running:
            while todo and len(running) < JOBS:
                k = todo.pop(0)
                seconds = max(3, min(specs[k].seconds * (1 if tier == 'quick' else 4), t_end - time.time()))
                path = os.path.join(tmp, str(k))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        child(specs[k], tier, seconds, path)
                        code = 0
                    finally:
                        os._exit(code)
                running[pid] = (k, path, time.time() + seconds + 25)
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                for p, (k, path, limit) in running.items():
                    if time.time() > limit:
                        os.kill(p, signal.SIGKILL)
                time.sleep(0.02)
                continue
            k, path, _ = running.pop(pid)
            try:
                with open(path) as f:
                    results[k] = json.load(f)
            except (OSError, ValueError):
                results[k] = dict(obligations=[dict(name=specs[k].name + ': verified', status='undecided', reason='time limit')], trusted=[], functions=specs[k].functions,
                                  solver_s=0., paths=0, queries=0, s=0., unsupported=['time limit'])
    finally:
        for pid in running:
            os.kill(pid, signal.SIGKILL)
        shutil.rmtree(tmp)
    for k, spec in enumerate(specs):
        res = results[k]
        obligations.extend(res['obligations'])
        trusted |= set(res['trusted'])
        functions |= set(res['functions'])
        solver_s += res['solver_s']
        if res['unsupported']:
            notes.append('{}: {}'.format(spec.name, '; '.join(res['unsupported'][:3])[:600]))
        if os.environ.get('PYVC_VERBOSE'):
            print('{}: {} paths, {} queries, {:.1f} s'.format(spec.name, res['paths'], res['queries'], res['s']))
            for ob in res['obligations']:
                print('   ', ob['status'], ob['name'], ob.get('reason', ''), 'paths', ob.get('paths'))
                if ob['status'] == 'refuted':
                    print('       ', ob.get('condition'), ob.get('model'), ob.get('detail'))
            for u in res['unsupported']:
                print('    !', u)
    with open(out, 'w') as f:
        json.dump(dict(
            obligations=obligations, trusted=sorted(trusted), functions=sorted(functions), notes=notes, solver_s=solver_s, back_end='z3 ' + core.z3.get_version_string()
        ), f, indent=1, default=str)


if __name__ == '__main__':
    main()
