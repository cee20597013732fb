"""C02: the hand-written shooting equations and the automatically differentiated ones are the same flow."""
import torch
from symtorch.runner import Case
from checks import common as cm

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: two instances of the same model, one with the analytic and one with the autodiff equations, '
               'are evaluated at one symbolic state/costate/data point (and symbolic time, weight); z3 decides equality of every entry of the '
               'parameters, of all derivatives and of the norm penalty.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.KINK, cm.RANDOM]
OUTSIDE = 'more particles/features/inflation than listed per case; particle dimension other than 1 (the analytic equations are written for row-vector particles)'


def agree(ctx, key, nl, Fe, K, infl, weighted, N=1, at0=True, lead=(), via='gradients', configured=None, own=False):
    kw = {}
    if own:
        kw['own_weights'] = lambda o, k: ctx.tensor('w.{}.{}'.format(o, k), (), pos=True)
    if weighted:
        kw['parameter_weight'] = ctx.tensor('w', (), pos=True)
        if key == 'universal':
            kw['optional_weight'] = ctx.tensor('w3', (), pos=True)
    # the number of particles met may differ from the one configured (pass-through blocks)
    a = cm.build(key, nl, Fe, configured or K, infl=infl, use_analytic_solution=True, **kw)
    b = cm.build(key, nl, Fe, configured or K, infl=infl, use_analytic_solution=False, **kw)
    s, c, d = cm.sym_all(ctx, key, Fe, K, infl=infl, N=N, lead=lead)
    t = torch.zeros(()) if at0 else ctx.tensor('t', (), pos=True)
    if lead:
        for m in (a, b):
            m.set_data_concatenation_dim(2 + len(lead))
    if via == 'vector':
        va, plans = a.assemble_tensor(s, c, d)
        for m in (a, b):
            m.set_auto_assembly_plans(plans)
        ctx.check_eq('flow', a(t, va), b(t, va))
    else:
        ra = a.compute_gradients(t, s, c, d)
        rb = b.compute_gradients(t, s, c, d)
        pa, pb = cm.params_of(ra[3]), cm.params_of(rb[3])
        ctx.check('same parameter names', sorted((o, k) for o in pa for k in pa[o]) == sorted((o, k) for o in pb for k in pb[o]))
        for o in pb:
            for k in pb[o]:
                ctx.check_eq('parameter {}.{}'.format(o, k), pa[o][k].reshape(-1), pb[o][k].reshape(-1))
        for n, u, v in zip(('state', 'costate', 'data'), ra, rb):
            ctx.check_same('d/dt ' + n, u, v)
    if at0:
        ctx.check_eq('norm penalty', a.get_norm_penalty(), b.get_norm_penalty())
    else:
        ctx.check('no penalty before t=0 was seen', a.get_current_norm_penalty() is None and b.get_current_norm_penalty() is None)


def cases(tier):
    out = []
    lim = {'generic': True}
    for key in cm.ANALYTIC:
        for nl in (None, 'relu', 'tanh', 'sigmoid', 'softmax'):
            out.append(Case('{}-{}'.format(key, nl), agree, '2 particles, 2 features, inflation 2, 1 sample, any weight > 0', lim,
                            key=key, nl=nl, Fe=2, K=2, infl=2, weighted=True))
        out.append(Case(key + '-noweight', agree, '2 particles, 1 feature, inflation 3, no weight', lim, key=key, nl='tanh', Fe=1, K=2, infl=3, weighted=False))
        out.append(Case(key + '-later', agree, '1 particle, 2 features, inflation 1, 2 samples, any t > 0', lim, key=key, nl='sigmoid', Fe=2, K=1, infl=1, weighted=True, N=2, at0=False))
        out.append(Case(key + '-k3', agree, '3 particles, 1 feature, inflation 2', lim, key=key, nl='relu', Fe=1, K=3, infl=2, weighted=True))
        out.append(Case(key + '-vector', agree, 'through the vector interface, 2 particles, 1 feature, inflation 2', lim, key=key, nl='tanh', Fe=1, K=2, infl=2, weighted=True, via='vector'))
        out.append(Case(key + '-received', agree, '3 particles met, 2 configured', lim, key=key, nl='tanh', Fe=1, K=3, configured=2, infl=2, weighted=True))
        out.append(Case(key + '-leading', agree, 'data with an extra leading axis', lim, key=key, nl='tanh', Fe=1, K=2, infl=2, weighted=True, lead=(2,)))
        out.append(Case(key + '-own', agree, 'every layer parameter with a weight of its own', lim, key=key, nl='tanh', Fe=1, K=2, infl=2, weighted=False, own=True))
        out.append(Case(key + '-many', agree, '10 particles, 1 feature, inflation 5, 6 samples', lim, key=key, nl='tanh', Fe=1, K=10, infl=5, weighted=True, N=6))
        out.append(Case(key + '-wide', agree, '1 particle, 5 features, inflation 1', lim, key=key, nl='tanh', Fe=5, K=1, infl=1, weighted=True))
        if tier == 'thorough':
            for nl in ('relu', 'tanh', 'sigmoid', 'softmax'):
                out.append(Case('{}-{}-big'.format(key, nl), agree, '3 particles, 2 features, inflation 3, 2 samples', lim, key=key, nl=nl, Fe=2, K=3, infl=3, weighted=True, N=2))
                out.append(Case('{}-{}-wide'.format(key, nl), agree, '2 particles, 3 features, inflation 2', lim, key=key, nl=nl, Fe=3, K=2, infl=2, weighted=True))
            out.append(Case(key + '-k5', agree, '5 particles, 1 feature, inflation 5', lim, key=key, nl='tanh', Fe=1, K=5, infl=5, weighted=True))
    return out
