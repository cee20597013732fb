"""C04: costates follow the adjoint (Hamiltonian) equation; the reduced energy is conserved."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c03 import weights

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the costate derivatives of every model (autodiff and analytic) are compared entry by entry with '
               '-d/dq <p, f(q; theta)> at the parameters the integrand reports, with f taken from the equations stated for the model; '
               'a second obligation shows that the time derivative of the reduced Hamiltonian along the reported flow is identically zero.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.KINK, cm.RANDOM, 'denominators (weights) are positive']
OUTSIDE = 'sizes beyond those listed; the optimal transport model; chained blocks of the model with learned dampening states'


def setup(ctx, key, nl, K, infl, pd, size, weighted, blocks, cfgK=0, **more):
    kw, w = weights(ctx, key, weighted)
    kw.update(more)
    total = sum(f for _, f in blocks)
    m = cm.build(key, nl, total, K, pd=pd, infl=infl, size=size, **kw)
    if cfgK != 0:
        kw = dict(kw)
        m = cm.build(key, nl, total, cfgK, pd=pd, infl=infl, size=size, is_pass_through=True, **kw)
    s, c, d = sd({}), sd({}), sd({})
    for n, f in blocks:
        shp = cm.shapes(key, f, K, pd, infl, size)
        s[n] = cm.sym_states(ctx, n + '.q', shp)
        c[n] = cm.sym_states(ctx, n + '.p', shp, costate=True)
        d[n] = cm.sym_states(ctx, n + '.x', cm.shapes(key, f, 1, pd, infl, size))
    return m, s, c, d, w


def cat(key, x):
    dim = 1 if cm.MODELS[key].conv else 2
    first = x[next(iter(x))]
    return sd({k: torch.cat([x[n][k] for n in x], dim=dim) for k in first})


def adjoint(ctx, key, nl, Fe, K, infl=2, pd=1, size=None, weighted=True, t0=False, blocks=None, analytic=False, cfgK=0, again=False):
    blocks = blocks or [('blk', Fe)]
    m, s, c, d, w = setup(ctx, key, nl, K, infl, pd, size, weighted, blocks, cfgK=cfgK, use_analytic_solution=analytic)
    t = torch.zeros(()) if t0 else ctx.tensor('t', (), pos=again)
    if again:
        # what was evaluated before at that time must not matter
        o = [sd({n: sd({k: ctx.tensor('before.{}.{}'.format(n, k), tuple(v.shape), requires_grad=True) for k, v in z[n].items()}) for n in z}) for z in (s, c, d)]
        m.compute_gradients(t, *o)
    ds, dc, dd, po = m.compute_gradients(t, s, c, d)
    # theta is taken from the particles themselves, not from what the integrand reports
    P = cm.frozen(cm.optimal_params(key, m, cat(key, s), cat(key, c), nl, w))
    want = cm.hamilton_costate(key, P, cat(key, s), cat(key, c), nl)
    ctx.check('blocks', list(dc) == list(s))
    got = cat(key, dc)
    ctx.check('entries', len(got) == len(want))
    for k in want:
        ctx.check_eq(k, got[k], want[k])


def energy(ctx, key, nl, Fe, K, infl=2, pd=1, size=None, analytic=False):
    """H(q,p) = mean <p,f(q,theta*)> - 1/2 sum w theta*^2 does not change along the flow"""
    blocks = [('blk', Fe)]
    m, s, c, d, w = setup(ctx, key, nl, K, infl, pd, size, True, blocks, use_analytic_solution=analytic)
    ds, dc, dd, po = m.compute_gradients(torch.zeros(()), s, c, d)
    q, p = s['blk'], c['blk']
    P = cm.optimal_params(key, m, q, p, nl, w)
    rhs = cm.field(key, P, q, nl)
    H = 0
    for k in q:
        H = H + (p['p_' + k] * rhs['dot_' + k]).sum() / K
    for o in P:
        for k in P[o]:
            ww = w(o, k)
            H = H - 0.5 * (P[o][k] ** 2).sum() * (1 if ww is None else ww)
    gq = torch.autograd.grad(H, [q[k] for k in q], retain_graph=True)
    gp = torch.autograd.grad(H, [p['p_' + k] for k in q])
    rate = 0
    for k, a, b in zip(q, gq, gp):
        rate = rate + (a.detach() * ds['blk']['dot_' + k].detach()).sum() + (b.detach() * dc['blk']['dot_p_' + k].detach()).sum()
    ctx.check_eq('dH/dt', rate, torch.zeros_like(rate))
    if not cm.MODELS[key].damp:
        # then H equals the norm penalty, so the penalty seen at t=0 is the one of the whole path
        ctx.check_eq('H is the norm penalty', H.detach(), m.get_norm_penalty().detach())


def cases(tier):
    out = []
    lim = {'generic': True}
    for key in cm.MODELS:
        conv = cm.MODELS[key].conv
        if conv:
            for nl in (None, 'tanh', 'relu'):
                out.append(Case('{}-{}'.format(key, nl), adjoint, '2 particles, 1 channel, 1x2, any weight', lim, key=key, nl=nl, Fe=1, K=2, size=(1, 2)))
            out.append(Case(key + '-channels', adjoint, '1 particle, 2 channels, 1x2 image', lim, key=key, nl='tanh', Fe=2, K=1, size=(1, 2)))
            out.append(Case(key + '-t0', adjoint, '1 particle, 1 channel, 2x2, no weight, t=0', lim, key=key, nl='tanh', Fe=1, K=1, size=(2, 2), weighted=False, t0=True))
            out.append(Case(key + '-chained', adjoint, 'two blocks of 1 channel each', lim, key=key, nl='tanh', Fe=2, K=2, size=(1, 2), blocks=[('a', 1), ('b', 1)]))
            out.append(Case(key + '-passthrough', adjoint, 'pass-through block without particle configuration of its own', lim, key=key, nl='tanh', Fe=1, K=2, size=(1, 2), cfgK=None))
            out.append(Case(key + '-passthrough-k', adjoint, 'pass-through block configured for another number of particles', lim, key=key, nl='tanh', Fe=1, K=2, size=(1, 2), cfgK=5))
            out.append(Case(key + '-again', adjoint, 'second evaluation at one time', lim, key=key, nl='tanh', Fe=1, K=1, size=(1, 2), again=True))
            out.append(Case(key + '-energy', energy, '2 particles, 1 channel, 1x2', lim, key=key, nl='tanh', Fe=1, K=2, size=(1, 2)))
        else:
            for nl in (None, 'relu', 'tanh', 'sigmoid', 'softmax'):
                out.append(Case('{}-{}'.format(key, nl), adjoint, '2 particles, 2 features, inflation 2, any weight', lim, key=key, nl=nl, Fe=2, K=2))
            out.append(Case(key + '-pd2', adjoint, 'particle dimension 2, 2 particles, 1 feature', lim, key=key, nl='tanh', Fe=1, K=2, pd=2))
            out.append(Case(key + '-k3', adjoint, '3 particles, 1 feature, inflation 3, no weight, t=0', lim, key=key, nl='tanh', Fe=1, K=3, infl=3, weighted=False, t0=True))
            out.append(Case(key + '-chained', adjoint, 'two blocks with 1 and 2 features', lim, key=key, nl='tanh', Fe=3, K=2, infl=2, blocks=[('a', 1), ('b', 2)]))
            out.append(Case(key + '-passthrough', adjoint, 'pass-through block without particle configuration of its own', lim, key=key, nl='tanh', Fe=1, K=2, cfgK=None))
            out.append(Case(key + '-passthrough-k', adjoint, 'pass-through block configured for another number of particles', lim, key=key, nl='tanh', Fe=1, K=2, cfgK=5))
            out.append(Case(key + '-again', adjoint, 'second evaluation at one time', lim, key=key, nl='tanh', Fe=1, K=2, again=True))
            out.append(Case(key + '-energy', energy, '2 particles, 1 feature, inflation 2', lim, key=key, nl='tanh', Fe=1, K=2))
            out.append(Case(key + '-many', adjoint, '10 particles, 1 feature, inflation 5', lim, key=key, nl='tanh', Fe=1, K=10, infl=5))
            out.append(Case(key + '-wide', adjoint, '1 particle, 5 features, inflation 1', lim, key=key, nl='tanh', Fe=5, K=1, infl=1))
            if cm.MODELS[key].analytic:
                out.append(Case(key + '-analytic', adjoint, 'analytic equations, 2 particles, 2 features', lim, key=key, nl='tanh', Fe=2, K=2, analytic=True))
                out.append(Case(key + '-analytic-again', adjoint, 'analytic equations, second evaluation at one time', lim, key=key, nl='tanh', Fe=1, K=2, again=True, analytic=True))
                out.append(Case(key + '-analytic-passthrough', adjoint, 'analytic equations, pass-through block configured for another number of particles', lim, key=key, nl='tanh', Fe=1, K=2, cfgK=5, analytic=True))
        if tier == 'thorough':
            if conv:
                for nl in ('tanh', 'relu'):
                    out.append(Case('{}-{}-big'.format(key, nl), adjoint, '2 particles, 1 channel, 2x2', lim, key=key, nl=nl, Fe=1, K=2, size=(2, 2)))
                out.append(Case(key + '-chained3', adjoint, 'three blocks', lim, key=key, nl='tanh', Fe=3, K=1, size=(1, 2), blocks=[('a', 1), ('b', 1), ('c', 1)]))
            else:
                for nl in ('tanh', 'relu', 'sigmoid', 'softmax'):
                    out.append(Case('{}-{}-big'.format(key, nl), adjoint, '3 particles, 2 features, inflation 3', lim, key=key, nl=nl, Fe=2, K=3, infl=3))
                    out.append(Case('{}-{}-energy'.format(key, nl), energy, '2 particles, 2 features, inflation 2', lim, key=key, nl=nl, Fe=2, K=2))
                out.append(Case(key + '-pd3', adjoint, 'particle dimension 3', lim, key=key, nl='tanh', Fe=2, K=2, pd=3))
                out.append(Case(key + '-chained3', adjoint, 'three blocks', lim, key=key, nl='tanh', Fe=4, K=2, infl=2, blocks=[('c', 1), ('b', 2), ('a', 1)]))
    for nl in (None, 'tanh', 'relu', 'sigmoid'):
        out.append(Case('dampened-{}'.format(nl), adjoint, '2 particles, 2 features, inflation 2, any weight', lim, key='dampened', nl=nl, Fe=2, K=2))
    out.append(Case('dampened-k3', adjoint, '3 particles, 1 feature, inflation 3, no weight, t=0', lim, key='dampened', nl='tanh', Fe=1, K=3, infl=3, weighted=False, t0=True))
    out.append(Case('dampened-energy', energy, '2 particles, 1 feature, inflation 2', lim, key='dampened', nl='tanh', Fe=1, K=2))
    return out
