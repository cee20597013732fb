"""Run the check of one property:  python -m symtorch.runner <ID> [quick|thorough]

exit 0  every obligation was discharged by the solver on every path
exit 1  a counterexample was found and reproduced on the real code (VIOLATION line)
exit 2  no verdict (unsupported construct, solver gave up, counterexample not reproduced)
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')


class Case(object):
    def __init__(self, name, fn, bounds='', limits=None, **params):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.limits = limits or {}
        self.params = params


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def get_case(pid, tier, name):
    m = load(pid)
    for t in (tier, 'thorough', 'quick'):
        for c in m.cases(t):
            if c.name == name:
                return c
    raise KeyError(name)


def _warmup(c):
    import torch
    import torch._decomp
    import torch.utils.checkpoint
    import torchdiffeq
    x = c.tensor('x', (2,))
    c.check_eq('warmup', x + 1, 1 + x)


def _worker(pid, tier, name, seed, q):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    try:
        from symtorch import ctx, solver
        solver.CROSSCHECK[0] = tier == 'thorough' and os.environ.get('VERIF_CVC5', '1') == '1'
        c = get_case(pid, tier, name)
        t0 = time.time()
        r = ctx.explore(c.fn, c.params, c.limits, seed=seed)
        r['wall'] = time.time() - t0
        q.put((name, r))
    except BaseException as e:
        q.put((name, {'crash': '{}: {}\n{}'.format(type(e).__name__, e, traceback.format_exc()[-1500:])}))


def run_cases(pid, tier, names, seed, jobs, case_timeout, deadline, is_new):
    """all cases, in parallel; once a new violation is found the remaining ones get a little more time only"""
    ctx_ = mp.get_context('fork')
    out = {}
    running = {}
    todo = list(names)
    found = None
    while todo or running:
        now = time.time()
        if found is not None and now > found + 30:
            deadline = min(deadline, now)
        while todo and len(running) < jobs and now < deadline:
            n = todo.pop(0)
            q = ctx_.SimpleQueue()
            p = ctx_.Process(target=_worker, args=(pid, tier, n, seed, q))
            p.start()
            running[n] = (p, q, time.time())
        if now >= deadline:
            for n in todo:
                out[n] = {'unfinished': True} if found else {'crash': 'not started within the time limit'}
            todo = []
        for n in list(running):
            p, q, t0 = running[n]
            if not q.empty():
                _, r = q.get()
                out[n] = r
                p.join()
                del running[n]
                if found is None and any(is_new(n, v['label']) for v in r.get('violations', ())):
                    found = time.time()
            elif not p.is_alive():
                out[n] = {'crash': 'worker died (exit {})'.format(p.exitcode)}
                del running[n]
            elif time.time() - t0 > case_timeout or time.time() >= deadline:
                p.kill()
                p.join()
                out[n] = {'unfinished': True} if found else {'crash': 'case exceeded its time limit ({:.0f} s)'.format(time.time() - t0)}
                del running[n]
        time.sleep(0.02)
    return out


def replay_all(pid, tier, found, budget, jobs):
    """found: list of dicts with case, label, envs. Runs the counterexamples against the real code, the first candidate of
    every violation first, until one or more reproduce; sets 'replay' and 'observed'."""
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, 'replay')):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(EVID, 'replay', f))
    t0 = time.time()
    queue = [(i, k) for i in range(max([len(v['envs']) for v in found] or [0])) for k, v in enumerate(found) if i < len(v['envs'])]
    running = []
    done = False
    while queue or running:
        over = time.time() - t0 > budget
        while queue and len(running) < jobs and not done and not over:
            i, k = queue.pop(0)
            v = found[k]
            if 'replay' in v:
                continue
            path = os.path.join(EVID, 'replay', '{}-{}-{}.json'.format(pid, k + 1, i))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'case': v['case'], 'label': v['label'], 'inputs': v['envs'][i]}, f, indent=1)
            p = subprocess.Popen([sys.executable, '-m', 'symtorch.replay', path], stdout=open(path + '.out', 'w'), stderr=subprocess.STDOUT, cwd=ROOT,
                                 env=dict(os.environ, OMP_NUM_THREADS='1'))
            running.append((p, v, path, time.time(), i))
        if done or over:
            queue = []
        for item in list(running):
            p, v, path, ts, i = item
            if p.poll() is None:
                if time.time() - ts > 200 or over:
                    p.kill()
                    p.wait()
                    running.remove(item)
                continue
            running.remove(item)
            out = open(path + '.out').read()
            os.remove(path + '.out')
            v['tried'] = v.get('tried', 0) + 1
            if p.returncode == 1:
                v['replay'], v['observed'] = path, out.strip().split('\n')[-1]
                done = True
            elif p.returncode != 0 and i == 0:
                sys.stderr.write(out[-800:])
        time.sleep(0.02)


def known_findings():
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=<id> case=<case> label=<label prefix> :: <description>
                head, _, desc = line[len('finding:'):].partition('::')
                d = dict(x.split('=', 1) for x in head.split() if '=' in x)
                d['desc'] = desc.strip()
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        m = load(pid)
        cases = list(m.cases(tier))
    except Exception as e:
        from symtorch import ctx
        site = ctx.exception_site(e)
        traceback.print_exc()
        # the code under test cannot even be imported
        if site is not None and site[0] == 'repo':
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            path = os.path.join(EVID, 'replay', '{}-import.json'.format(pid))
            json.dump({'property': pid, 'error': repr(e)}, open(path, 'w'))
            print('VIOLATION property={} replay={}'.format(pid, path))
            return 1
        return 2
    if only:
        cases = [c for c in cases if only in c.name]
    from symtorch import ctx, solver, engine
    ctx.explore(_warmup, {}, {})  # pulls in torch's lazy imports before forking
    jobs = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))
    findings = known_findings()
    is_new = lambda case, label: not [f for f in findings if f.get('property') == pid and f.get('case') == case and label.startswith(f.get('label', ''))]
    limit = 600 if tier == 'quick' else 6 * 3600
    results = run_cases(pid, tier, [c.name for c in cases], seed, jobs, getattr(m, 'CASE_TIMEOUT', 600) if tier == 'quick' else 3600, t0 + limit, is_new)
    status = 0
    viol = []
    problems = []
    skipped = []
    known = []
    agg = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0, 'rewritten': 0, 'feasibility': 0, 'cvc5': 0, 'cvc5_agree': 0}
    tot = {'paths': 0, 'obligations': 0, 'elements': 0, 'validated': 0, 'sat_paths': 0}
    funcs = set()
    ops = {}
    fresh = []
    unfinished = []
    for c in cases:
        r = results[c.name]
        if 'unfinished' in r:
            unfinished.append(c.name)
            continue
        if 'crash' in r:
            problems.append('{}: {}'.format(c.name, r['crash']))
            continue
        for s in agg:
            agg[s] += r['solver'].get(s, 0)
        for s in tot:
            tot[s] += r[s]
        funcs.update(r['functions'])
        for o, n in r['ops'].items():
            ops[o] = ops.get(o, 0) + n
        for v in r['violations']:
            hit = [f for f in findings if f.get('property') == pid and f.get('case') == c.name and v['label'].startswith(f.get('label', ''))]
            if hit:
                known.append(hit[0])
                print('KNOWN-FINDING: property={} {}'.format(pid, hit[0]['desc']))
                continue
            fresh.append({'case': c.name, 'label': v['label'], 'envs': v['envs']})
        for p in r['skipped']:
            skipped.append('{}: {}'.format(c.name, p))
        for p in r['inconclusive']:
            problems.append('{}: {}'.format(c.name, p))
    replay_all(pid, tier, fresh, 200, jobs)
    for v in fresh:
        if 'replay' in v:
            viol.append(v)
        else:
            problems.append('{}: {}: {}'.format(v['case'], v['label'], 'counterexample not reproduced on the real code' if v.get('tried') else 'counterexample not replayed'))
    for n in unfinished:
        problems.append('{}: not finished, a violation was found first'.format(n))
    wall = time.time() - t0
    for v in viol[:3]:
        print('case {}: {}\n  observed on the real code: {}'.format(v['case'], v['label'], v['observed']))
    if viol:
        print('VIOLATION property={} replay={}'.format(pid, viol[0]['replay']))
        status = 1
    elif problems or len(skipped) > len(cases) // 2:
        status = 2
    for p in skipped:
        print('SKIPPED: ' + p)
    for p in problems:
        print('NO VERDICT: ' + p)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': m.LEVEL,
        'coverage': {
            'technique': 'symbolic execution of the real code over torch\'s operator dispatch; obligations decided by z3 over all real inputs within the bounds',
            'functions_encoded': sorted(funcs),
            'bounds': {c.name: c.bounds for c in cases},
            'cases': len(cases),
            'paths': tot['paths'], 'satisfiable_paths': tot['sat_paths'],
            'obligations': tot['obligations'], 'scalar_equalities': tot['elements'],
            'translator_validated_values': tot['validated'],
            'queries': agg['queries'], 'queries_unsat': agg['unsat'], 'queries_sat': agg['sat'], 'queries_unknown': agg['unknown'],
            'obligations_rewritten_before_solving': agg['rewritten'],
            'feasibility_queries': agg['feasibility'], 'solver_time_s': round(agg['solver_s'], 3),
            'cvc5_cross_checks': agg['cvc5'], 'cvc5_agree': agg['cvc5_agree'],
            'aten_operators_interpreted': ops,
            'undecided': problems,
            'skipped_internal_helper_absent': skipped,
            'outside_bounds': getattr(m, 'OUTSIDE', ''),
            'states_or_paths_explored': tot['paths'],
            'explanation': m.EXPLANATION,
        },
        'assumptions': m.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    if not only:
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('{} {}: {} cases, {} paths, {} obligations ({} scalar equalities), {} queries ({} unsat, {} sat, {} unknown), solver {:.1f}s, wall {:.1f}s -> {}'.format(
        pid, tier, len(cases), tot['paths'], tot['obligations'], tot['elements'], agg['queries'], agg['unsat'], agg['sat'], agg['unknown'], agg['solver_s'], wall,
        {0: 'holds', 1: 'VIOLATED', 2: 'no verdict'}[status]))
    if os.environ.get('VERIF_VERBOSE'):
        for c in cases:
            r = results[c.name]
            if 'wall' in r:
                print('   {:40s} {:6.1f}s paths {} obl {} q {} solver {:.1f}'.format(c.name, r['wall'], r['paths'], r['obligations'], r['solver']['queries'], r['solver']['solver_s']))
    return status


if __name__ == '__main__':
    sys.exit(main())
