"""C20: complexity measures integrate the logarithmic parameter norms over time."""
import numpy as np
import torch
from symtorch import expr as X
from symtorch.runner import Case
from checks import common as cm

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the recorded times and norms are symbolic numbers; on every ordering of the times the measures must equal the stated sums (the logarithm is an uninterpreted function of its argument), '
               'and the record must be as before.')
ASSUMPTIONS = [cm.ARITH, 'recorded squared norms are positive']
OUTSIDE = 'longer records than listed; zero norms (logarithm of zero)'

NAMES = {'log2_frobenius': 'sum_sqr_frobenius_norm', 'log2_nuclear': 'sum_sqr_nuclear_norm', 'log2_spectral': 'sum_sqr_spectral_norm'}


def log2(ctx, x):
    return X.lift(x).log2() if ctx.symbolic else np.log2(x)


def measure(ctx, n, zero_dim=False, arrays=False, single_time=None, extra=True):
    import neuro_shooting.validation_measures as vm
    t = [ctx.scalar('t%d' % i, sample=0.25 * (i % 3)) for i in range(n)]
    if single_time is not None:
        t = [0.25 * i for i in range(n)] if single_time == 'up' else [0.0, 0.5, 1.0, 0.0, 0.5, 1.0][:n]
    data = {'t': list(t)}
    for q in NAMES.values():
        v = [ctx.scalar('{}{}'.format(q, i), pos=True) for i in range(n)]
        if zero_dim:
            # what the recording hook stores: zero-dimensional arrays
            v = [np.array(x, dtype=object if ctx.symbolic else float) for x in v]
        data[q] = v
    if extra:
        data['energy'] = [ctx.scalar('e%d' % i) for i in range(n)]
        data['sqr_frobenius_norm_l1.weight'] = [ctx.scalar('f%d' % i) for i in range(n)]
    if arrays:
        data = {k: np.array(v, dtype=object if ctx.symbolic else float) for k, v in data.items()}
    before = {k: [x for x in v] for k, v in data.items()}
    got = vm.compute_complexity_measures(data)
    ctx.check('measures', sorted(got) == sorted(NAMES))
    val = lambda x: x[()] if isinstance(x, np.ndarray) else x
    for m, q in NAMES.items():
        want = 0
        for i in range(n - 1):
            dt = t[i + 1] - t[i]
            if dt > 0:
                want = want + dt * log2(ctx, (val(before[q][i]) + val(before[q][i + 1])) / 2)
        ctx.check_eq(m, val(np.asarray(got[m])), want)
    ctx.check('record: names', sorted(data) == sorted(before))
    for k in before:
        ctx.check('record: length', len(data[k]) == len(before[k]))
        for i, (a, b) in enumerate(zip(data[k], before[k])):
            ctx.check_eq('record: {} {}'.format(k, i), val(a), val(b))
    again = vm.compute_complexity_measures(data)
    for m in NAMES:
        ctx.check_eq('again ' + m, val(np.asarray(again[m])), val(np.asarray(got[m])))


def from_block(ctx, key, Fe=1, K=1, steps=2):
    """recorded by the supplied hook, then measured"""
    from collections import defaultdict
    import neuro_shooting.validation_measures as vm
    import neuro_shooting.shooting_hooks as sh
    from checks.c07 import data_input
    S = cm.Solver(ctx)
    b, m = cm.make_block(ctx, key, S, 'tanh', Fe, K, infl=2)
    b(x=data_input(ctx, key, Fe, 1, None))
    x0 = S.calls[0]['x0']
    data = defaultdict(list)
    m.set_custom_hook_data(data)
    m.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    for i in range(steps + 1):
        m(torch.tensor(0.25 * i), ctx.tensor('y%d' % i, tuple(x0.shape), requires_grad=True))
    got = vm.compute_complexity_measures(data)
    for k, q in NAMES.items():
        v = [ctx.term(torch.as_tensor(u)) if not isinstance(u, X.Term) and not ctx.symbolic else ctx.terms(u).reshape(-1)[0] for u in data[q]]
        want = 0
        for i in range(steps):
            want = want + 0.25 * log2(ctx, (v[i] + v[i + 1]) / 2)
        ctx.check_eq(k, np.asarray(got[k])[()], want)


def cases(tier):
    lim = {'max_paths': 3000}
    for n in (1, 2, 3, 4, 5) + ((6, 7) if tier != 'quick' else ()):
        yield Case('free-%d' % n, measure, '%d records, any order of times' % n, lim, n=n)
    for n in (2, 6, 10, 20) + ((40, 60) if tier != 'quick' else ()):
        yield Case('increasing-%d' % n, measure, '%d records at increasing times' % n, lim, n=n, single_time='up')
    yield Case('restarted', measure, 'two integrations of 3 records', lim, n=6, single_time='restart')
    yield Case('zero-dim', measure, 'norms stored as zero-dimensional arrays', lim, n=3, zero_dim=True)
    yield Case('arrays', measure, 'record of arrays', lim, n=3, arrays=True)
    for key in ('simple', 'updown', 'universal'):
        yield Case('recorded-' + key, from_block, 'recorded by the supplied hook', lim, key=key)
