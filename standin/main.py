"""standin.main PROP SEED BUDGET OUT  |  standin.main --replay FILE"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')

import logging
logging.disable(logging.CRITICAL)

from standin import common


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            rec = json.load(f)
        rec = rec.get('case_record', rec)
        common.load_all()
        for name, fct, *_ in common.CASES[rec['property']]:
            if name == rec['case']:
                status, ctx, detail = common.run_one(rec['property'], name, fct, rec['seed'], rec['index'])
                print(json.dumps(dict(status=status, input=ctx.desc, detail=detail), indent=1))
                return 1 if status == 'violation' else 0
        return 0
    prop, seed, budget, out = sys.argv[1:5]
    import nodefinder
    assert os.path.realpath(nodefinder.__file__).startswith(os.path.realpath(REPO)), nodefinder.__file__
    common.load_all()
    res = common.run_property(prop, int(seed), float(budget))
    with open(out, 'w') as f:
        json.dump(res, f, indent=1)
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)  # do not wait for threads which are still running
