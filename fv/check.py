"""python3-vt -B fv/check.py PID      decides one property on /repo's current working tree

 1. every verifier job of the property (fv/specs/registry.py) is run on the current source: obligations are generated
    from it and discharged, refuted or left open;
 2. the same contracts are evaluated on concrete inputs against a private build of the current tree (the replay of
    counterexamples, and the labelled bounded stand-in for what the verifier does not reach).
Exit 1 with a VIOLATION line for (a) a concrete failing input on the real code, or (b) an obligation the verifier
refutes; otherwise exit 0.  Writes evidence/PID.json."""
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPO = os.environ.get('FALWA_REPO', '/repo')
VENV = '/opt/venv/bin/python'

from fv.specs import registry                                # noqa: E402
from fv.build import build, ENV                              # noqa: E402

ASSUMPTIONS = [
    'numbers are real numbers: rounding, overflow, NaN and infinities are not modelled by the obligations (the replays run in floating point)',
    'f2py hands contiguous copies to the kernels and zero-fills intent(out) arrays before the call',
    'numpy functions behave as their contracts in fv/py/shim.py (indexing, views, broadcasting, reductions, digitize, interp, gradient, ...)',
    'scipy.interpolate.interp1d is linear in the data with weights that depend on the abscissae only; UnivariateSpline is opaque',
    'scipy.linalg.lapack dgetrf/dgetri return the inverse of a nonsingular matrix',
    'xarray behaves as its contracts in fv/py/xr.py (C21, C23, C24 only)',
    'sine is increasing between equator and pole; the PV field is not constant',
    'sizes: at least 4 levels, 3 longitudes and 4 rows per hemisphere including the equator (5 in the domain of the direct inversion); positive physical constants',
]
TRUSTED = [
    'the verifier in /verif/fv (Fortran front end, symbolic executor, loop summariser, algebraic normaliser)',
    'z3 (linear integer arithmetic over index terms)',
    'real arithmetic stands for floating point (rounding, overflow and NaN are not modelled)',
    'the Fortran compiler, f2py glue, numpy, scipy and CPython',
]


def job_main(mod, fn, q):
    try:
        r = registry.call(mod, fn)
    except Exception:
        r = dict(job=mod + '.' + fn, obls=[dict(id=mod + '.' + fn + '/execution', status='unsupported', time=0, kind='exec',
                 detail='verifier error: ' + traceback.format_exc()[-1500:])], functions=[], notes=[], wall=0, z3_calls=0, z3_time=0)
    q.put(r)


def run_jobs(jobs, limit, width):
    """each job in its own process with a time limit"""
    ctx = mp.get_context('fork')
    todo, live, out = list(jobs), [], []
    while todo or live:
        while todo and len(live) < width:
            m, f, flt = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=job_main, args=(m, f, q), daemon=True)
            p.start()
            live.append((m, f, flt, p, q, time.time()))
        for e in list(live):
            m, f, flt, p, q, t0 = e
            r = None
            try:
                r = q.get(timeout=0.05)
            except Exception:
                dead = not p.is_alive()
                if time.time() - t0 > limit or dead:
                    try:
                        r = q.get(timeout=0.5)
                    except Exception:
                        r = dict(job=m + '.' + f, functions=[], notes=[], wall=time.time() - t0, z3_calls=0, z3_time=0,
                                 obls=[dict(id=m + '.' + f + '/execution', status='unknown', kind='exec', time=round(time.time() - t0, 1),
                                            detail='verifier process ended' if dead else 'time limit')])
            if r is not None:
                p.kill()
                p.join()
                live.remove(e)
                if flt:
                    r['obls'] = [o for o in r['obls'] if re.search(flt, o['kind'] + ':' + o['id'].split('/', 1)[-1]) or o['kind'] == 'exec']
                out.append(r)
    return out


class Replay:
    """one replay process with progress tracking"""

    def __init__(self, bld, pid, seed, n, tmp, tag, budget, case=None):
        self.out = os.path.join(tmp, 'r_%s.json' % tag)
        self.seed = seed
        cmd = [VENV, '-B', '-m', 'fv.replay.run_replay', bld, pid, str(seed), str(n), self.out]
        if case is not None:
            cf = os.path.join(tmp, 'c_%s.json' % tag)
            json.dump(dict(case=case), open(cf, 'w'))
            cmd.append(cf)
        self.budget = budget
        self.log = open(os.path.join(tmp, 'l_%s.txt' % tag), 'w+')
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, cwd=VERIF, env={**ENV, 'TMPDIR': tmp, 'REPLAY_BUDGET': str(budget), 'OMP_NUM_THREADS': '1',
                                                       'OPENBLAS_NUM_THREADS': '1'},
                                  stdout=self.log, stderr=subprocess.STDOUT)
        self.state = None

    def poll(self):
        if self.state:
            return True
        rc = self.p.poll()
        if rc is None:
            now = self.out + '.now'
            try:
                age = time.time() - os.path.getmtime(now)
            except OSError:
                age = time.time() - self.t0
            if age > max(180.0, 0) or time.time() - self.t0 > self.budget + 200:
                self.p.kill()
                self.p.wait()
                self.state = 'hang'
                return True
            return False
        self.state = 'done' if rc == 0 and os.path.exists(self.out) else 'abort'
        return True

    def result(self):
        if self.state == 'done':
            return json.load(open(self.out))
        self.log.seek(0)
        txt = self.log.read()[-1500:]
        try:
            case = json.load(open(self.out + '.now'))
        except Exception:
            case = None
        return dict(crash=self.state, rc=self.p.returncode, text=txt, case=case)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='falwa_%s_' % pid)
    try:
        rc = decide(pid, tier, seed, thorough, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    d = json.load(open(p)) if os.path.exists(p) else {'known': []}
    return [k for k in d.get('known', []) if k['property'] == pid]


def decide(pid, tier, seed, thorough, t0, tmp):
    meta = {}
    for l in open(os.path.join(VERIF, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == pid:
            meta = d
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    entry = [c for c in man['checks'] if c['property'] == pid]
    level = entry[0]['level'] if entry else 'other'
    fast = os.environ.get('FV_FAST')

    # ---- private build, in the background
    bld = os.path.join(tmp, 'bld')
    os.makedirs(bld)
    notes, viol, build_err = [], [], None
    try:
        build(bld, REPO, double=True, bounds=(pid == 'C19'))
    except Exception as e:
        build_err = str(e)[-1200:]
        notes.append('private build failed: ' + build_err)

    # ---- concrete contracts
    reps = []
    width = 2 if not thorough else 4
    n = int(os.environ.get('FV_N', 0)) or (120 if not thorough else 1500)
    budget = 60 if not thorough else 420
    if not build_err:
        for w in range(width):
            reps.append(Replay(bld, pid, seed * 1000 + w, n, tmp, 'w%d' % w, budget))

    # ---- obligations
    jobs = registry.jobs(pid)
    res = run_jobs(jobs, 420 if not thorough else 700, 6) if jobs and not fast else []
    obls = [o for r in res for o in r['obls']]
    st = {}
    for o in obls:
        st[o['status']] = st.get(o['status'], 0) + 1
    open_ = [o for o in obls if o['status'] != 'proved']
    refuted = [o for o in obls if o['status'] == 'refuted']

    def collect(reps):
        out = []
        while not all([r.poll() for r in reps]):
            time.sleep(0.05)
        for r in reps:
            out.append(r.result())
        return out
    results = collect(reps)

    def fails_of(results):
        fl = []
        for r in results:
            if r.get('crash'):
                if r['case'] is None:
                    notes.append('replay did not start: %s' % r['text'])
                    # a package that cannot be imported at all: nothing ran
                    if r['crash'] == 'abort' and ('ImportError' in r['text'] or 'ModuleNotFoundError' in r['text']):
                        fl.append(dict(clause='the package can be imported', case=None, message=r['text'][-600:]))
                    continue
                # reproduce on the single case
                rr = Replay(bld, pid, seed, 1, tmp, 'again%d' % len(fl), 100, case=r['case'])
                r2 = collect([rr])[0]
                if r2.get('crash'):
                    fl.append(dict(clause='terminates normally on a valid input', case=r['case'],
                                   message='%s (exit %s): %s' % (r2['crash'], r2['rc'], r2['text'][-500:])))
                else:
                    notes.append('a %s did not reproduce' % r['crash'])
                continue
            fl += r['fails']
            for h in r.get('harness_cases', []):
                fl.append(dict(clause='the public interface works on a valid input', case=h['case'], message=h['message'][-700:]))
        return fl
    fails = fails_of(results)

    if not fails and open_ and not build_err:
        # the verifier did not accept an obligation: search harder for an input on the real code
        more = [Replay(bld, pid, seed * 1000 + 500 + w, 600, tmp, 'x%d' % w, 120) for w in range(6)]
        rs = collect(more)
        results += rs
        fails = fails_of(rs)

    kf = known_findings(pid)
    left = []
    for f in fails:
        hit = [k for k in kf if k['clause'] == f['clause'] and all(f['case'] and f['case'].get(a) == b for a, b in k.get('case', {}).items())]
        if hit:
            notes.append('known finding: ' + hit[0]['what'])
        else:
            left.append(f)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    fails = left

    # ---- verdict
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s.json' % pid)
    if os.path.exists(rpath):
        os.remove(rpath)
    rc = 0
    if fails:
        rc = 1
        f = fails[0]
        json.dump(dict(property=pid, kind='concrete input', clause=f['clause'], case=f['case'], observed=f['message'],
                       how='python3-vt -B fv/check.py --replay %s' % os.path.relpath(rpath, VERIF),
                       other_failures=[dict(clause=x['clause'], message=x['message'][:300]) for x in fails[1:10]],
                       failed_obligations=open_[:10]), open(rpath, 'w'), indent=1, default=str)
        print('violated clause: %s: %s' % (f['clause'], f['message'][:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rpath))
    elif refuted:
        rc = 1
        json.dump(dict(property=pid, kind='failed obligation', obligation=refuted[0], all_failed=open_[:20],
                       searched='%d concrete cases without a failing input' % sum(r.get('cases', 0) for r in results)),
                  open(rpath, 'w'), indent=1, default=str)
        print('failed obligation: %s' % refuted[0]['id'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath))

    # ---- evidence
    good = [r for r in results if not r.get('crash')]
    cov = dict(
        obligations=len(obls), discharged=st.get('proved', 0),
        checker_cmd='python3-vt -B fv/check.py %s' % pid,
        trusted_base=TRUSTED + list(entry[0].get('x_trusted', []) if entry else []),
        functions_under_contract=sorted({f for r in res for f in r['functions']}),
        obligations_by_status=st, backend=dict(
            algebraic_normaliser_and_z3=st.get('proved', 0), z3_calls=sum(r['z3_calls'] for r in res),
            z3_seconds=round(sum(r['z3_time'] for r in res), 2)),
        verifier_seconds=round(sum(r['wall'] for r in res), 2),
        open_obligations=[dict(id=o['id'], status=o['status'], detail=o['detail']) for o in open_][:30],
        vacuity=dict(contradictory_preconditions=st.get('vacuous', 0)),
        obligation_ids=[o['id'] for o in obls][:400],
        verdict_basis=('all obligations discharged' if obls and not open_ else
                       'obligations open or outside the subset: bounded stand-in decides for those' if obls else 'bounded stand-in only'),
        evaluations=sum(r['evals'] for r in good), distinct_nontrivial=sum(r['distinct'] for r in good),
        rule='bounded concrete evaluation of the same contracts on a private double-precision build of the working tree: random '
             'configurations (sizes, physical constants, options, data); each distinct configuration counts once',
        concrete_cases=sum(r['cases'] for r in good), samples=[s for r in good for s in r['samples']][:3],
        worst_relative_error={k: float('%.3g' % v) for r in good for k, v in r['worst'].items()},
        skipped=sum(r['nskipped'] for r in good), notes=notes + [x for r in res for x in r['notes']][:10])
    if level == 'proof' and (not obls or open_):
        level = 'exploration'           # not everything was discharged on this tree: what decides is the bounded stand-in
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov,
              assumptions=([entry[0]['level_note']] if entry else []) + ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=1 if rc else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged (%s); %d concrete cases, %d evaluations, %d failures; %.1f s' % (
        pid, len(obls), st.get('proved', 0), st, cov['concrete_cases'], cov['evaluations'], len(fails), time.time() - t0))
    return rc


def replay_file(path):
    d = json.load(open(path))
    if d['kind'] != 'concrete input' or d['case'] is None:
        print(json.dumps(d, indent=1))
        return 0
    tmp = tempfile.mkdtemp(prefix='falwa_replay_')
    try:
        bld = os.path.join(tmp, 'bld')
        os.makedirs(bld)
        build(bld, REPO, double=True, bounds=d['property'] == 'C19')
        r = Replay(bld, d['property'], 1, 1, tmp, 'one', 300, case=d['case'])
        while not r.poll():
            time.sleep(0.1)
        x = r.result()
        print(json.dumps(x.get('fails', x), indent=1, default=str)[:4000])
        return 1 if x.get('fails') or x.get('crash') else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay_file(sys.argv[2]))
    main()
