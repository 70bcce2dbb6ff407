"""Worker: executes tasks of one property module, one JSON line in, one out."""
import importlib
import json
import os
import sys
import warnings

warnings.filterwarnings('ignore')


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)   # whatever the code under test prints goes to the log
    sys.stdout = sys.stderr
    import shenfun
    scratch = os.environ['MC_SCRATCH']
    assert shenfun.__file__.startswith(scratch), shenfun.__file__
    mod = importlib.import_module('mc.props.' + prop.lower())
    from mc.common import Rec
    if '--tasks' in sys.argv:
        tier = sys.argv[sys.argv.index('--tasks') + 1]
        tasks = mod.tasks(tier)
        meta = dict(getattr(mod, 'META', {}))
        out.write(json.dumps({'tasks': tasks, 'meta': meta}) + '\n')
        out.flush()
        return
    for line in sys.stdin:
        task = json.loads(line)
        rec = Rec(prop, task)
        rec.guard(lambda: mod.run(task, rec), 'task')
        out.write(json.dumps(rec.result()) + '\n')
        out.flush()


main()
