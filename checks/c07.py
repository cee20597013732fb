"""C07: the norm penalty is the energy of the layer parameters at the start of the current integration."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c03 import weights

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: real blocks with symbolic particles, costates, weights (or symbolic directly optimised layers) are driven through sequences of integrations by a '
               'stand-in solver that evaluates the derivative at the start and at further symbolic times and states; the reported penalty, and its gradient, must equal the definition.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM, 'denominators (weights) are positive']
OUTSIDE = 'sizes and lengths beyond those listed per case; the optimal transport model'


def energy(P, w):
    e = 0
    for o in P:
        for k in P[o]:
            ww = w(o, k)
            e = e + (P[o][k] ** 2).sum() * (1 if ww is None else ww)
    return 0.5 * e


def penalty_of(ctx, key, m, q, p, nl, w):
    return energy(cm.optimal_params(key, m, q, p, nl, w), w)


def data_input(ctx, key, Fe, N, size, pd=1, tag='x'):
    return ctx.tensor(tag, cm.shapes(key, Fe, N, pd, 1, size)['q1'])


def particles(key, block):
    pars = cm.own(block)
    st = cm.MODELS[key].states
    return sd({k: pars[k] for k in st}), sd({'p_' + k: pars['p_' + k] for k in st})


def same_gradient(ctx, label, got, want, tensors):
    # a value that is cut off from the graph has no gradient
    grads = lambda v: torch.autograd.grad(v.sum(), tensors, allow_unused=True, retain_graph=True) if v.requires_grad else [None] * len(tensors)
    a, b = grads(got), grads(want)
    for i, (u, v, t) in enumerate(zip(a, b, tensors)):
        z = torch.zeros_like(t)
        ctx.check_eq('{} {}'.format(label, i), z if u is None else u, z if v is None else v)


def from_particles(ctx, key, nl, Fe=1, K=2, infl=2, size=None, pd=1, analytic=False, rnn=False, grad=True, weighted=True, repeat=2):
    kw, w = weights(ctx, key, weighted)

    def evaluate(n, func, x0, t):
        func(t[0], x0)
        for j in range(2):
            tt = ctx.tensor('t{}{}'.format(n, j), (), pos=True)
            y = ctx.tensor('z{}{}'.format(n, j), tuple(x0.shape), requires_grad=True)
            func(tt, y)

    S = cm.Solver(ctx, evaluate=evaluate)
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, pd=pd, infl=infl, size=size, use_analytic_solution=analytic, use_rnn_mode=rnn, **kw)
    for r in range(repeat):
        if r:
            for n, v in list(cm.own(b).items()):
                ctx.set_values(v, 'second{}.{}'.format(r, n))
        b(x=data_input(ctx, key, Fe, 2, size, pd, 'x%d' % r))
        q, p = particles(key, b)
        want = penalty_of(ctx, key, m, q, p, nl, w)
        got = b.get_norm_penalty()
        ctx.check('penalty reported', got is not None)
        ctx.check_eq('penalty of integration {}'.format(r), got.reshape(()), want)
        if grad:
            same_gradient(ctx, 'gradient of integration {}'.format(r), got, want, [q[k] for k in q] + [p[k] for k in p])


def _layer(ctx, m, name):
    shp = cm.default_param_shapes(m)
    o = [(o_, k_) for o_ in shp for k_ in shp[o_] if name.endswith(o_ + '_' + k_)]
    ctx.check('name of ' + name, len(o) == 1)
    return o[0]


def not_from_zero(ctx, key, nl='tanh', Fe=1, K=1, size=None, analytic=False, rnn=False, steps=0):
    """after a regular integration, one that starts later must not report the old penalty"""
    def evaluate(n, func, x0, t):
        func(t[0], x0)
        func(t[-1], x0)

    S = cm.Solver(ctx, evaluate=evaluate)
    kw, w = weights(ctx, key, False)
    bk = dict() if not steps else dict(use_particle_free_rnn_mode=True) if steps == 1 else dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=steps)
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, size=size, use_analytic_solution=analytic, use_rnn_mode=rnn, block_kw=bk, **kw)
    b(x=data_input(ctx, key, Fe, 1, size))
    ctx.check('first integration reports', b.get_norm_penalty() is not None)
    t0 = ctx.tensor('ta', (), pos=True)
    t1 = ctx.tensor('tb', (), pos=True)
    ctx.assume(t0 < t1)
    b.set_integration_time_vector(torch.stack([t0, t1]))
    b(x=data_input(ctx, key, Fe, 1, size))
    ctx.check('no stale penalty', b.get_norm_penalty() is None)
    ctx.check('no stale penalty (integrand)', m.get_current_norm_penalty() is None)
    # and a vector that does start at zero reports again
    b.set_integration_time_vector(torch.stack([torch.zeros(()), t1]))
    b(x=data_input(ctx, key, Fe, 1, size))
    if steps:
        want = 0.5 * sum((v ** 2).sum() * (1 if w(*_layer(ctx, m, n)) is None else w(*_layer(ctx, m, n))) for n, v in cm.own(b).items()) / steps
    else:
        q, p = particles(key, b)
        want = penalty_of(ctx, key, m, q, p, nl, w)
    ctx.check_eq('penalty with a time vector from zero', b.get_norm_penalty().reshape(()), want)


def chained(ctx, key, nl='tanh', Fe=1, K=1, size=None, passthrough=True, analytic=False, N=1):
    """the penalty of a later block is that of all particles it integrates"""
    S = cm.Solver(ctx, evaluate=lambda n, func, x0, t: func(t[0], x0))
    kw, w = weights(ctx, key, True)
    kw['use_analytic_solution'] = analytic
    b1, m1 = cm.make_block(ctx, key, S, nl, Fe, K, size=size, name='a', **kw)
    _, s, c, d = b1(x=data_input(ctx, key, Fe, 1, size))
    if passthrough:
        b2, m2 = cm.make_block(ctx, key, S, nl, Fe, K, size=size, name='b', is_pass_through=True, **kw)
    else:
        # twice the features: those received and those of its own
        import neuro_shooting.shooting_blocks as sb
        more = dict(particle_dimension=Fe) if cm.MODELS[key].conv else dict(particle_size=Fe)
        m2 = cm.build(key, nl, 2 * Fe, K, size=size, **dict(kw, **more))
        b2 = sb.ShootingBlockBase(name='b', shooting_integrand=m2, integrator=S)
        cm.symbolic_parameters(ctx, b2, 'b')
    b2(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
    dim = 1 if cm.MODELS[key].conv else 2
    blk = next(iter(s))
    q, p = s[blk], c[blk]
    if not passthrough:
        q2, p2 = particles(key, b2)
        q = sd({k: torch.cat((q[k], q2[k]), dim) for k in q})
        p = sd({k: torch.cat((p[k], p2[k]), dim) for k in p})
    q = sd({k: v.detach() for k, v in q.items()})
    p = sd({k: v.detach() for k, v in p.items()})
    ctx.check_eq('penalty of the second block', b2.get_norm_penalty().reshape(()), penalty_of(ctx, key, m2, q, p, nl, w))


def direct(ctx, key, nl='tanh', Fe=1, K=1, size=None, steps=1, analytic=False, weighted=True):
    """directly optimised layers: average over the pieces"""
    kw, w = weights(ctx, key, weighted)

    def evaluate(n, func, x0, t):
        func(t[0], x0)
        for j in range(2):
            # (which piece a time belongs to is C12's matter)
            tt = ctx.tensor('t{}{}'.format(n, j), (), pos=True) if steps == 1 else torch.tensor((0.8, 0.3)[j])
            func(tt, ctx.tensor('z{}{}'.format(n, j), tuple(x0.shape), requires_grad=True))

    S = cm.Solver(ctx, evaluate=evaluate)
    bk = dict(use_particle_free_rnn_mode=True) if steps == 1 else dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=steps)
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, size=size, use_analytic_solution=analytic, block_kw=bk, **kw)
    shp = cm.default_param_shapes(m)
    npar = sum(len(v) for v in shp.values())
    for r in range(2):
        if r:
            for n, v in list(cm.own(b).items()):
                ctx.set_values(v, 'second.' + n)
        b(x=data_input(ctx, key, Fe, 1, size))
        pars = cm.own(b)
        ctx.check('all pieces are registered', len(pars) == steps * npar)
        want = 0
        for n, v in pars.items():
            # the last two parts of the name are layer and parameter
            o = [(o_, k_) for o_ in shp for k_ in shp[o_] if n.endswith(o_ + '_' + k_)]
            ctx.check('name of ' + n, len(o) == 1)
            ww = w(*o[0])
            want = want + 0.5 * (v ** 2).sum() * (1 if ww is None else ww)
        want = want / steps
        got = b.get_norm_penalty()
        ctx.check_eq('average penalty {}'.format(r), got.reshape(()), want)
        same_gradient(ctx, 'gradient {}'.format(r), got, want, list(pars.values()))


def cases(tier):
    out = []
    lim = {'generic': True}
    for key in cm.MODELS:
        M = cm.MODELS[key]
        size = (1, 2) if M.conv else None
        kw = dict(key=key, size=size)
        K = 1 if key == 'convbatch' else 2
        out.append(Case(key, from_particles, '2 integrations of 3 evaluations, any weight', lim, nl='tanh', K=K, grad=not M.conv, **kw))
        out.append(Case(key + '-unweighted', from_particles, '1 integration, no weight', lim, nl='sigmoid', K=1, weighted=False, repeat=1, **kw))
        out.append(Case(key + '-rnn', from_particles, 'RNN mode, 2 integrations', lim, nl='tanh', K=1, rnn=True, grad=False, **kw))
        out.append(Case(key + '-late', not_from_zero, 'integration not starting at zero after one that did', lim, **kw))
        out.append(Case(key + '-late-rnn', not_from_zero, 'the same in RNN mode', lim, rnn=True, **kw))
        out.append(Case(key + '-late-direct', not_from_zero, 'the same with directly optimised parameters', lim, steps=1, **kw))
        out.append(Case(key + '-late-direct2', not_from_zero, 'the same with directly optimised parameters, 2 pieces', lim, steps=2, **kw))
        out.append(Case(key + '-pass', chained, 'pass-through second block', lim, **kw))
        out.append(Case(key + '-chain', chained, 'second block with own particles', lim, passthrough=False, **kw))
        out.append(Case(key + '-direct', direct, 'directly optimised, 1 piece, 2 integrations', lim, steps=1, **kw))
        out.append(Case(key + '-direct3', direct, 'directly optimised, 3 pieces, 2 integrations', lim, steps=3, **kw))
        if M.analytic:
            out.append(Case(key + '-analytic', from_particles, 'analytic, 2 integrations', lim, nl='tanh', analytic=True, **kw))
            out.append(Case(key + '-analytic-rnn', from_particles, 'analytic, RNN mode', lim, nl='tanh', K=1, analytic=True, rnn=True, grad=False, **kw))
            out.append(Case(key + '-analytic-late', not_from_zero, 'analytic, integration not starting at zero', lim, analytic=True, **kw))
            out.append(Case(key + '-analytic-pass', chained, 'analytic, pass-through second block', lim, analytic=True, K=2, **kw))
            out.append(Case(key + '-analytic-direct', direct, 'analytic, directly optimised, 2 pieces', lim, steps=2, analytic=True, **kw))
        if not M.conv:
            out.append(Case(key + '-many', from_particles, '10 particles, inflation 5, 2 integrations', lim, nl='relu', K=10, infl=5, grad=False, **kw))
            out.append(Case(key + '-direct-many', direct, 'directly optimised, 10 pieces', lim, steps=10, weighted=False, **kw))
        if tier == 'thorough':
            out.append(Case(key + '-big', from_particles, '3 integrations, larger sizes', lim, nl='tanh', K=3 if not M.conv else 2, Fe=2, grad=not M.conv, repeat=3, key=key, size=size))
            out.append(Case(key + '-direct7', direct, 'directly optimised, 7 pieces', lim, steps=7, **kw))
    return out
