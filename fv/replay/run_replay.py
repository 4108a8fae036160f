"""usage: /opt/venv/bin/python -B -m fv.replay.run_replay BUILD PID SEED N OUT.json [CASE.json]"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    build, pid, seed, n, out = sys.argv[1:6]
    case_file = sys.argv[6] if len(sys.argv) > 6 else None
    sys.meta_path[:] = [f for f in sys.meta_path if 'meson' not in type(f).__module__.lower()
                        and 'editable' not in type(f).__module__.lower()
                        and 'meson' not in type(f).__name__.lower() and 'editable' not in type(f).__name__.lower()]
    sys.path.insert(0, build)
    sys.path.insert(0, VERIF)
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    # the kernels write to unit 6; keep our stdout for the result only
    dn = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    os.dup2(dn, 1)
    import numpy as np
    from fv.replay.core import Recorder, Violation, quiet
    from fv.replay import registry
    import falwa
    assert os.path.realpath(falwa.__file__).startswith(os.path.realpath(build)), falwa.__file__
    R = Recorder(pid)
    t0 = time.time()
    fn = registry.lookup(pid)
    rng = np.random.default_rng([int(seed)] + [ord(x) for x in pid])
    cases, run = fn(rng, int(n))
    if case_file:
        want = json.load(open(case_file))
        cases = [want['case']]
    harness = None
    deadline = time.time() + float(os.environ.get('REPLAY_BUDGET', '1e9'))
    prog = out + '.now'
    for c in cases:
        if time.time() > deadline:
            break
        R.begin(c)
        with open(prog + '~', 'w') as f:
            json.dump(c, f, default=lambda o: o.item() if hasattr(o, 'item') else str(o))
        os.replace(prog + '~', prog)
        try:
            with quiet():
                run(R, c)
        except Violation:
            pass
        except Exception:
            harness = traceback.format_exc()
            R.skipped.append('harness: ' + harness[-600:])
            R.harness_cases.append(dict(case=c, message=harness[-1500:]))
        if len(R.fails) > 60:
            break
    os.dup2(keep, 1)
    json.dump(dict(pid=pid, cases=R.cases, distinct=len(R.distinct), evals=R.evals, fails=R.fails[:60], samples=R.samples,
                   worst=R.worst, skipped=R.skipped[:10], nskipped=len(R.skipped), harness=harness, harness_cases=R.harness_cases[:5], wall=time.time() - t0),
              open(out, 'w'), default=lambda o: o.item() if hasattr(o, 'item') else str(o), indent=1)


if __name__ == '__main__':
    main()
