#!/opt/venv/bin/python
"""Decide one property:  check.py C01 [--tier quick|thorough] [--only name]

exit 0  the property holds on every path within the stated bounds
exit 1  VIOLATION line printed; the counterexample was reproduced on the
        unmodified code
exit 2  inconclusive / error of the check (never a success)
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
perf = time.perf_counter
REPO = os.environ.get('VERIF_REPO', '/repo')

MODULES = {}


def module_of(pid):
    """Property id -> props module; kept in props/INDEX."""
    with open(os.path.join(HERE, 'props', 'INDEX')) as f:
        for line in f:
            parts = line.split()
            if parts and not line.startswith('#') and pid in parts[1:]:
                return parts[0]
    raise SystemExit('unknown property %s' % pid)


def setup_logging():
    import logging
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False


def load(pid, symbolic):
    from symkat import load as L
    if symbolic:
        L.install()
    else:
        L.install_plain()
    setup_logging()
    importlib.import_module('props.' + module_of(pid))
    from symkat.harness import PROPS
    return PROPS[pid]


def run_concrete(prop, name, params, inputs):
    from symkat import engine
    h = [x for x in prop.harnesses if x.name == name][0]
    ctx = engine.ConcreteCtx(inputs)
    try:
        h.fn(ctx, **params)
    except engine.CheckFailed as e:
        return 'violation', str(e), ctx.observed
    except engine.ReplayDiverged as e:
        return 'diverged', str(e), ctx.observed
    except Exception as e:
        import traceback
        if ctx.failed is not None:
            return 'violation', ctx.failed, ctx.observed
        return ('exception', '%s: %s\n%s' % (type(e).__name__, e,
                                             traceback.format_exc()),
                ctx.observed)
    if ctx.failed is not None:
        return 'violation', ctx.failed, ctx.observed
    return 'ok', None, ctx.observed


def jsonable(x):
    if isinstance(x, bytes):
        return {'bytes': list(x)}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, dict):
        return [[jsonable(k), jsonable(v)] for k, v in x.items()]
    if isinstance(x, float):
        return {'float': repr(x)}
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, str):
        return {'str': [ord(c) for c in x]}
    return {'repr': type(x).__name__}


def cmd_replay(path):
    with open(path) as f:
        r = json.load(f)
    p = load(r['property'], False)
    status, detail, obs = run_concrete(p, r['harness'], r['params'],
                                       r['inputs'])
    print('replay %s/%s %s: %s' % (r['property'], r['harness'], status, detail))
    for k, v in obs[-20:]:
        print('  observed %s = %r' % (k, v))
    return 1 if status in ('violation', 'exception') else 0


def cmd_batch(path):
    """Run a list of cases concretely; print one JSON line each."""
    with open(path) as f:
        b = json.load(f)
    p = load(b['property'], False)
    out = []
    for c in b['cases']:
        status, detail, obs = run_concrete(p, c['harness'], c['params'],
                                           c['inputs'])
        out.append({'status': status, 'detail': detail,
                    'observed': [[k, jsonable(v)] for k, v in obs]})
    with open(path + '.out', 'w') as f:
        json.dump(out, f)
    return 0


def concrete_batch(pid, cases, tag):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-batch-%s-%d.json' % (pid, tag, os.getpid()))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'cases': cases}, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        pr = subprocess.run([sys.executable, os.path.abspath(__file__),
                             '--batch', path], env=env, cwd=HERE,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            timeout=250)
        text = pr.stdout
    except subprocess.TimeoutExpired as e:
        text = (e.stdout or b'') + b'\n(timed out)\n'
    try:
        with open(path + '.out') as f:
            out = json.load(f)
        os.unlink(path + '.out')
    except (IOError, ValueError):
        out = None
        sys.stdout.write(text.decode('utf-8', 'replace')[-3000:])
    os.unlink(path)
    return out


def leave(rc):
    # harnesses may have replaced thread identities: skip interpreter teardown
    sys.stdout.flush()
    os._exit(rc)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--batch')
    ap.add_argument('--jobs', type=int,
                    default=int(os.environ.get('VERIF_JOBS', 0)))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--witnesses', type=int, default=150,
                    help='replay so many paths per harness concretely')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        leave(cmd_replay(a.replay))
    if a.batch:
        leave(cmd_batch(a.batch))
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)]
                 + sys.argv[1:])
    return decide(a)


def selftest():
    """Setup: the solver works, every property module loads instrumented."""
    from symkat import engine, sym
    from symkat import load as L
    L.install()
    setup_logging()

    def good(ctx):
        x = ctx.int('x', 0, 1000)
        b = sym.mkbytes([ctx.int('c', 48, 57).e])
        ctx.check((x * 2) % 2 == 0, 'even')
        ctx.check(b.isdigit(), 'digit')

    def bad(ctx):
        x = ctx.int('x', 0, 1000)
        if x > 500:
            ctx.check(x != 777, 'planted')
    r = engine.explore(good, jobs=2)
    assert r.complete and not r.violations, r.incomplete
    r = engine.explore(bad, jobs=2)
    assert [v['inputs']['x'][1] for v in r.violations] == [[777]]
    n = 0
    with open(os.path.join(HERE, 'props', 'INDEX')) as f:
        for line in f:
            importlib.import_module('props.' + line.split()[0])
            n += len(line.split()) - 1
    print('selftest ok: %d properties' % n)
    return 0


def decide(a):
    from symkat import engine
    t0 = perf()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = load(pid, True)
    jobs = a.jobs or os.cpu_count() or 4
    hard = t0 + 760
    budget = a.budget if a.budget is not None else (
        120 if tier == 'quick' else 560)
    runs = []        # (harness, params, Result, required)
    violations, problems = [], []
    plan = []
    for h in p.harnesses:
        if a.only and h.name != a.only:
            continue
        for prm in h.quick:
            plan.append((h, prm, True))
    if tier == 'thorough':
        # deeper bounds, interleaved over harnesses; each is only claimed
        # if it was explored to completion
        depth = max([len(h.thorough) for h in p.harnesses] or [0])
        for i in range(depth):
            for h in p.harnesses:
                if a.only and h.name != a.only:
                    continue
                if i < len(h.thorough):
                    plan.append((h, h.thorough[i], False))
    partial = []
    for h, prm, required in plan:
        if not required and perf() - t0 > budget:
            partial.append('%s %s: not started (time budget)' % (h.name, prm))
            continue
        dl = hard if required else min(hard, t0 + budget + 60)
        fn = (lambda ctx, h=h, prm=prm: h.fn(ctx, **prm))
        engine.FUNCS.clear()
        r = engine.explore(fn, jobs=jobs, deadline=dl, sample_every=(
            1 if required else 10), max_witnesses=a.witnesses)
        runs.append((h, prm, r, required))
        if a.v:
            print('%-34s %-30s paths=%d aborted=%d queries=%d obl=%d/%d '
                  'solver=%.1fs wall=%.1fs %s %s'
                  % (h.name, prm, r.stats.paths, r.stats.aborted,
                     r.stats.queries, r.stats.discharged, r.stats.obligations,
                     r.stats.solver_s, r.wall_s, r.stats.covered,
                     r.incomplete[:2]), flush=True)
        for v in r.violations:
            violations.append((h, prm, v))
        if violations:
            break
        if not r.complete:
            if required:
                problems.append('%s %s: %s' % (h.name, prm,
                                               '; '.join(r.incomplete[:3])))
            else:
                partial.append('%s %s: explored in part (%s)' % (
                    h.name, prm, '; '.join(r.incomplete[:2])))
    # vacuity guards
    if not violations:
        for h in p.harnesses:
            if a.only and h.name != a.only:
                continue
            cov = {}
            for hh, prm, r, req in runs:
                if hh is h:
                    for k, v in r.stats.covered.items():
                        cov[k] = cov.get(k, 0) + v
            for tag in h.covers:
                if not cov.get(tag):
                    problems.append('%s: vacuous, %r never reached'
                                    % (h.name, tag))
    # replays on the unmodified code
    reported = []
    if violations:
        cases = [{'harness': h.name, 'params': prm, 'inputs': v['inputs']}
                 for h, prm, v in violations]
        out = concrete_batch(pid, cases, 'v')
        for (h, prm, v), case, o in zip(violations, cases,
                                        out or [None] * len(cases)):
            if o is not None and o['status'] in ('violation', 'exception'):
                reported.append((h, prm, v, case, o))
            else:
                problems.append(
                    'counterexample of %s (%s) did not reproduce: %s\n%s' % (
                        h.name, v['msg'], o, v.get('traceback', '')))
                if a.v:
                    print(json.dumps(case))
    # differential validation of the encoding: solver-chosen inputs of explored
    # paths are run through the unmodified code and must observe the same
    validated, mismatch = 0, []
    if not violations:
        cases, expect = [], []
        for h, prm, r, req in runs:
            for w in r.witnesses[:a.witnesses]:
                cases.append({'harness': h.name, 'params': prm,
                              'inputs': w['inputs']})
                expect.append([[k, jsonable(v)] for k, v in w['observed']])
        if cases:
            out = []
            for i in range(0, len(cases), 1000):
                part = concrete_batch(pid, cases[i:i + 1000], 'w')
                out = None if part is None or out is None else out + part
            if out is None:
                problems.append('validation run failed')
            else:
                for c, e, o in zip(cases, expect, out):
                    if o['status'] == 'violation' or o['status'] == 'exception':
                        h = [x for x in p.harnesses
                             if x.name == c['harness']][0]
                        reported.append((h, c['params'], {
                            'msg': o['detail'], 'inputs': c['inputs']}, c, o))
                        break
                    if o['status'] != 'ok' or o['observed'] != json.loads(
                            json.dumps(e)):
                        mismatch.append((c, e, o))
                    else:
                        validated += 1
    if mismatch:
        c, e, o = mismatch[0]
        problems.append('encoding mismatch in %d of %d validation runs, e.g. '
                        '%s\n symbolic %s\n concrete %s' % (
                            len(mismatch), validated + len(mismatch),
                            json.dumps(c)[:1500], json.dumps(e)[:1500],
                            json.dumps(o)[:1500]))
    rc = 0
    for h, prm, v, case, o in reported[:3]:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (pid, h.name))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'harness': h.name, 'params': prm,
                       'inputs': case['inputs'], 'message': v['msg']}, f,
                      indent=1)
        print('counterexample in %s: %s' % (h.name, v['msg']))
        print('  reproduced on the unmodified code: %s' % (
            (o['detail'] or '').strip().splitlines() or [''])[0])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    if not reported and problems:
        rc = 2
        for x in problems:
            print('INCONCLUSIVE %s: %s' % (pid, x))
    write_evidence(pid, tier, seed, p, runs, partial, problems, reported,
                   validated, perf() - t0, a)
    if rc == 0:
        tot = sum(r.stats.paths for _, _, r, _ in runs)
        q = sum(r.stats.queries for _, _, r, _ in runs)
        print('%s holds within the stated bounds: %d paths, %d solver queries,'
              ' %d encodings validated, %.1f s'
              % (pid, tot, q, validated, perf() - t0))
        for x in partial:
            print('  (beyond the claimed bounds) %s' % x)
    return rc


def write_evidence(pid, tier, seed, p, runs, partial, problems, reported,
                   validated, wall, a):
    if a.only:
        return
    from symkat import engine
    tot = engine.Stats()
    funcs = set()
    samples = []
    hs = []
    for h, prm, r, req in runs:
        tot.merge(r.stats.as_dict())
        funcs.update(r.funcs)
        for w in r.witnesses[:3]:
            if len(samples) < 12:
                samples.append({'harness': h.name, 'params': prm,
                                'inputs': dict((k, v[1]) for k, v in
                                               w['inputs'].items()),
                                'observed': jsonable(w['observed'])})
        hs.append({'harness': h.name, 'params': prm,
                   'bounds': h.bounds, 'complete': r.complete,
                   'paths': r.stats.paths, 'pruned': r.stats.aborted,
                   'branch_decisions': r.stats.decisions,
                   'queries': r.stats.queries, 'sat': r.stats.sat,
                   'unsat': r.stats.unsat,
                   'obligations': r.stats.obligations,
                   'discharged': r.stats.discharged,
                   'path_level_assertions': r.stats.concrete_checks,
                   'max_decision_depth': r.stats.max_depth,
                   'reached': r.stats.covered,
                   'solver_s': round(r.stats.solver_s, 3),
                   'wall_s': round(r.wall_s, 3)})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot.paths,
            'transitions': tot.decisions,
            'traces_validated_against_impl': validated,
            'samples': samples,
            'exhaustive': all(r.complete for _, _, r, _ in runs),
            'explanation': 'states = feasible symbolic paths explored to the '
            'end; transitions = branch decisions put to the SMT solver; every '
            'assertion is discharged by the solver on every path within the '
            'bounds of each harness listed below.',
            'solver': 'z3 ' + __import__('z3').get_version_string(),
            'queries': tot.queries, 'queries_sat': tot.sat,
            'queries_unsat': tot.unsat,
            'obligations': tot.obligations, 'discharged': tot.discharged,
            'solver_s': round(tot.solver_s, 3),
            'functions_encoded': sorted(f for f in funcs
                                        if not f.startswith('props')),
            'harnesses': hs,
            'outside_the_claim': partial,
            'problems': problems,
        },
        'assumptions': p.assumptions + [
            'builtin operations (str/bytes/int/float/re) are modelled by '
            'symkat; the model is validated on every run against the '
            'interpreter on solver-chosen inputs (traces_validated)'],
        'wall_s': round(wall, 3),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    leave(main())
