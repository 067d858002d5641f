#!/usr/bin/env python3
"""
check.py PROPERTY [quick|thorough]

Decides one property on the current tree of /repo:
  1. pyvc: contracts on the real functions, verification conditions generated
     from the current source, discharged with z3 (see DESIGN.md);
  2. the bounded stand-in: the same contracts checked at run time on generated
     inputs (also replays what a refuted obligation suggests).
Writes evidence/PROPERTY.json, exits with 0 or 1 (and a VIOLATION line).
"""
import json
import os
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
    VERIF_REPO=REPO, PYTHONHASHSEED='0', MPLCONFIGDIR=os.environ.get('MPLCONFIGDIR', '/tmp')
)
QUICK = dict(prove=240, standin=12, standin_max=330)
THOROUGH = dict(prove=1500, standin=150, standin_max=800)
SEARCH = dict(quick=60, thorough=200)
STANDIN_SECONDS = {'C21': 20, 'C16': 20, 'C20': 20, 'C01': 20, 'C26': 18, 'C17': 15, 'C13': 15, 'C14': 15}


def start(cmd):
    return subprocess.Popen(
        cmd, cwd=ROOT, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True
    )


def finish(proc, deadline):
    """(return code or None for a timeout, tail of stderr)"""
    try:
        _, err = proc.communicate(timeout=max(1, deadline - time.time()))
        return proc.returncode, err.decode(errors='replace')[-1500:]
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.communicate()
        return None, 'time limit'


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings(prop):
    res = []
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip() and not line.startswith('#') and not line.startswith('fixed:'):
                    rec = json.loads(line)
                    if rec['property'] == prop:
                        res.append(rec)
    return res


def matches(finding, violation):
    return all(str(violation.get(k)) == str(v) for k, v in finding.get('match', {}).items()) and bool(finding.get('match'))


def search(prop, seed, seconds, stand, evid):
    """More of the bounded stand-in, with other seeds, in parallel."""
    jobs = []
    t0 = time.time()
    for k in range(1, 7):
        out = os.path.join(evid, '{}.search{}.tmp.json'.format(prop, k))
        jobs.append((out, start([PY, os.path.join(ROOT, 'standin', 'main.py'), prop, str(1000 * k + seed), str(seconds), out])))
    for out, proc in jobs:
        finish(proc, t0 + seconds + 200)
        res = load(out)
        if os.path.exists(out):
            os.remove(out)
        if res is None:
            continue
        stand['violations'].extend(res['violations'])
        for k in ('evaluations', 'nontrivial', 'skipped', 'errors'):
            stand['stats'][k] += res['stats'][k]
    stand['notes']['search'] = 'obligations are not discharged: {} s more with 6 other seeds'.format(seconds)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    conf = THOROUGH if tier == 'thorough' else QUICK
    t0 = time.time()
    evid = os.path.join(ROOT, 'evidence')
    os.makedirs(evid, exist_ok=True)
    files = {k: os.path.join(evid, '{}.{}.tmp.json'.format(prop, k)) for k in ('prove', 'standin')}
    for path in files.values():
        if os.path.exists(path):
            os.remove(path)

    seconds = STANDIN_SECONDS.get(prop, conf['standin']) if tier == 'quick' else conf['standin']
    procs = {
        'prove': start([PY, os.path.join(ROOT, 'pyvc', 'run.py'), prop, tier, files['prove']]),
        'standin': start([PY, os.path.join(ROOT, 'standin', 'main.py'), prop, str(seed), str(seconds), files['standin']]),
    }
    ends, notes = {}, []
    for key, limit in (('standin', conf['standin_max']), ('prove', conf['prove'])):
        code, err = finish(procs[key], t0 + limit)
        ends[key] = code
        if code not in (0, ):
            notes.append('{} ended with {}: {}'.format(key, code, err))
    proof, stand = load(files['prove']), load(files['standin'])
    for path in files.values():
        if os.path.exists(path):
            os.remove(path)

    violations, findings = [], []
    # ---- stand-in
    if stand is None:
        stand = dict(stats=dict(evaluations=0, nontrivial=0, skipped=0, errors=0), per_case={}, samples=[], violations=[], notes={})
        if ends['standin'] is not None:
            # the code under test cannot even be imported or ended the process
            violations.append(dict(kind='stand-in', case='startup', detail=notes, input={}))
        else:
            violations.append(dict(kind='stand-in', case='time limit', detail='no answer within the time limit: the code under test does not return', input={}))
    # ---- proof
    if proof is None:
        proof = dict(obligations=[], trusted=[], functions=[], notes=['the verifier gave no result: {}'.format(notes)], solver_s=0.)
    broken = [ob for ob in proof['obligations'] if ob['status'] != 'discharged']
    if (broken or not proof['obligations']) and not stand['violations'] and not violations:
        # an obligation does not hold any more: search for an input which fails
        search(prop, seed, SEARCH[tier], stand, evid)
    for rec in stand['violations']:
        violations.append(dict(kind='stand-in', **rec))
    for ob in broken:
        if ob['status'] == 'refuted' or ob.get('contract'):
            violations.append(dict(kind='obligation', case=ob['name'], input=ob.get('model'), detail=ob, replayed=ob.get('replayed', False)))
    new = []
    for v in violations:
        hit = [f for f in known_findings(prop) if matches(f, v)]
        (findings if hit else new).append((v, hit))

    discharged = sum(ob['status'] == 'discharged' for ob in proof['obligations'])
    failed = [dict(name=ob['name'], contract=ob.get('contract')) for ob in broken if ob['status'] == 'refuted' or ob.get('contract')]
    undecided = [dict(name=ob['name'], reason=ob.get('reason', ob['status'])) for ob in proof['obligations'] if ob['status'] not in ('discharged', 'refuted') and not ob.get('contract')]
    level = 'exploration'
    manifest = load(os.path.join(ROOT, 'MANIFEST.json')) or {}
    for chk in manifest.get('checks', []):
        if chk['property'] == prop:
            level = chk['level']
    coverage = dict(
        evaluations=stand['stats']['evaluations'],
        distinct_nontrivial=stand['stats']['nontrivial'],
        rule='bounded stand-in: run-time contract checks of the real code on inputs generated from the seed ({} s); '
        'distinct by the description of the input, non-trivial as marked by the case'.format(seconds),
        samples=stand['samples'] or [dict(note='none')],
        bounded_cases=stand['per_case'],
        bounded_skipped=stand['stats']['skipped'],
        bounded_errors=stand['stats']['errors'],
        obligations=len(proof['obligations']),
        discharged=discharged,
        undecided=undecided,
        failed_obligations=failed,
        checker_cmd='{} pyvc/run.py {} {} OUT'.format(PY, prop, tier),
        trusted_base=proof['trusted'] or ['nothing proved for this property'],
        back_end=proof.get('back_end', 'z3'),
        solver_s=round(proof.get('solver_s', 0.), 3),
        functions_under_contract=proof['functions'],
        obligation_list=[dict(name=ob['name'], status=ob['status'], paths=ob.get('paths'), queries=ob.get('queries'), s=ob.get('s'), scope=ob.get('scope')) for ob in proof['obligations']],
        notes=notes + list(proof.get('notes', [])) + ['{}: {}'.format(k, v) for k, v in stand['notes'].items()],
        explanation='obligations are counted per named postcondition, invariant or lemma; a named obligation is discharged if z3 refuted its negation on every path of the real function(s)'
    )
    with open(os.path.join(evid, prop + '.json'), 'w') as f:
        json.dump(dict(
            property=prop, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=proof['trusted'],
            wall_s=round(time.time() - t0, 2), violations=len(new)
        ), f, indent=1, default=str)

    for v, hit in findings:
        print('KNOWN-FINDING: property={} {}'.format(prop, hit[0].get('what', v['case'])))
    if not new:
        print('property {}: {} of {} obligations discharged, {} bounded evaluations, {:.1f} s'.format(
            prop, discharged, len(proof['obligations']), stand['stats']['evaluations'], time.time() - t0))
        return 0
    replay = os.path.join(evid, 'replay-{}.json'.format(prop))
    new = [v for v, _ in new]
    replayed = [v for v in new if v['kind'] == 'stand-in' or v.get('replayed')]
    first = (replayed or new)[0]
    with open(replay, 'w') as f:
        json.dump(dict(
            property=prop, violation=first, case_record=first if first['kind'] == 'stand-in' else None, all_violations=new,
            how_to_replay='{} {}/standin/main.py --replay {}'.format(PY, ROOT, replay) if first['kind'] == 'stand-in' else 'see violation.detail for the failed obligation and the output of the verifier'
        ), f, indent=1, default=str)
    print('property {}: {}'.format(prop, json.dumps(first, default=str)[:1500]))
    print('VIOLATION property={} replay={}{}'.format(prop, replay, '' if replayed else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
