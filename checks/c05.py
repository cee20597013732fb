"""C05: one and the same stated vector field moves particles and data, sample by sample."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: for symbolic particles, costates and data, the time derivatives each model reports for its particles and for the '
               'transported data are compared entry by entry with the equation stated for the model evaluated at the layer parameters it reports; further obligations '
               'show that a batch moves like its samples do individually, that data never influences particles, and that the order of the particles is irrelevant. '
               'The flat-vector entry point the ODE solver calls is covered by its own cases.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.KINK, cm.RANDOM, 'denominators (weights) are positive']
OUTSIDE = 'sizes beyond those listed per case; filters other than 3x3; chained blocks of the two experimental models (learned dampening, optimal transport)'


def blocks_of(ctx, key, blocks, K, pd, infl, size, N, lead=(), npd=None, tag=''):
    s, c, d = sd({}), sd({}), sd({})
    for n, f in blocks:
        shp = cm.shapes(key, f, K, pd, infl, size)
        s[n] = cm.sym_states(ctx, tag + n + '.q', shp)
        c[n] = cm.sym_states(ctx, tag + n + '.p', shp, costate=True)
        d[n] = cm.sym_states(ctx, tag + n + '.x', cm.shapes(key, f, N, npd or pd, infl, size, lead))
    return s, c, d


def cat(x, dim):
    first = x[next(iter(x))]
    return sd({k: torch.cat([x[n][k] for n in x], dim=dim) for k in first})


def applied(ctx, key, nl, Fe, K=1, pd=1, infl=2, size=None, N=2, lead=(), npd=None, blocks=None, t0=False, **kw):
    """reported derivative == stated equation at the reported parameters, for particles and for data"""
    blocks = blocks or [('blk', Fe)]
    m = cm.build(key, nl, sum(f for _, f in blocks), K, pd=pd, infl=infl, size=size, **kw)
    s, c, d = blocks_of(ctx, key, blocks, K, pd, infl, size, N, lead, npd)
    dim = 1 if cm.MODELS[key].conv else 2
    ddim = dim + len(lead)
    if lead:
        m.set_data_concatenation_dim(ddim)
    t = torch.zeros(()) if t0 else ctx.tensor('t', ())
    ds, dc, dd, po = m.compute_gradients(t, s, c, d)
    P = cm.params_of(po)
    ws = cm.field(key, P, cat(s, dim), nl)
    if lead and cm.MODELS[key].conv:
        x = cat(d, ddim)
        flat = sd({k: v.reshape((-1,) + tuple(v.shape[len(lead) + 1:])) for k, v in x.items()})
        wd = cm.field(key, P, flat, nl)
        wd = sd({k: v.reshape(tuple(lead) + (N,) + tuple(v.shape[1:])) for k, v in wd.items()})
    else:
        wd = cm.field(key, P, cat(d, ddim), nl)
    ctx.check('blocks of the state derivative', list(ds) == list(s))
    ctx.check('blocks of the data derivative', list(dd) == list(d))
    gs, gd = cat(ds, dim), cat(dd, ddim)
    ctx.check('state entries', len(gs) == len(ws))
    for k in ws:
        ctx.check_eq('state ' + k, gs[k], ws[k])
        ctx.check_eq('data ' + k, gd[k], wd[k])
    for n, _ in blocks:
        for k in s[n]:
            ctx.check('shape state ' + k, tuple(ds[n]['dot_' + k].shape) == tuple(s[n][k].shape))
            ctx.check('shape data ' + k, tuple(dd[n]['dot_' + k].shape) == tuple(d[n][k].shape))


def arbitrary_layers(ctx, key, nl, Fe, infl=2, size=None, N=2, pd=1):
    """layers with arbitrary parameters (not only those particles can generate)"""
    m = cm.build(key, nl, Fe, 1, pd=pd, infl=infl, size=size)
    po = m.create_default_parameter_objects_on_consistent_device()
    for o in po:
        D = po[o].get_parameter_dict()
        for k in D:
            D[k] = ctx.tensor('{}.{}'.format(o, k), tuple(D[k].shape))
    d = sd({'blk': cm.sym_states(ctx, 'x', cm.shapes(key, Fe, N, pd, infl, size))})
    t = ctx.tensor('t', ())
    got = m.rhs_advect_data_dict_of_dicts(t=t, data_dict_of_dicts=d, parameter_objects=po)
    got2 = m.rhs_advect_state_dict_of_dicts(t=t, state_dict_of_dicts=d, parameter_objects=po, concatenation_dim=m.concatenation_dim)
    want = cm.field(key, cm.params_of(po), d['blk'], nl)
    ctx.check_same('data', got['blk'], want)
    ctx.check_same('state', got2['blk'], want)


def permuted(ctx, key, nl, Fe, K, pd=1, infl=2, size=None, perm=(1, 0), N=1):
    m = cm.build(key, nl, Fe, K, pd=pd, infl=infl, size=size)
    s, c, d = blocks_of(ctx, key, [('blk', Fe)], K, pd, infl, size, N)
    p = list(perm)
    s2 = sd({'blk': sd({k: v.detach()[p].clone().requires_grad_(True) for k, v in s['blk'].items()})})
    c2 = sd({'blk': sd({k: v.detach()[p].clone().requires_grad_(True) for k, v in c['blk'].items()})})
    t = ctx.tensor('t', ())
    a = m.compute_gradients(t, s, c, d)
    b = m.compute_gradients(t, s2, c2, d)
    for k in a[0]['blk']:
        ctx.check_eq('particles ' + k, a[0]['blk'][k][p], b[0]['blk'][k])
    for k in a[1]['blk']:
        ctx.check_eq('costates ' + k, a[1]['blk'][k][p], b[1]['blk'][k])
    for k in a[2]['blk']:
        ctx.check_eq('data ' + k, a[2]['blk'][k], b[2]['blk'][k])


def samplewise(ctx, key, nl, Fe, K=1, pd=1, infl=2, size=None, analytic=False):
    """the derivative of a sample depends neither on the other samples nor on the size of the batch; particles ignore data"""
    m = cm.build(key, nl, Fe, K, pd=pd, infl=infl, size=size, use_analytic_solution=analytic)
    s, c, d = blocks_of(ctx, key, [('blk', Fe)], K, pd, infl, size, 3)
    t = ctx.tensor('t', ())
    a = m.compute_gradients(t, s, c, d)
    for rows in ([0], [2], [2, 1]):
        e = sd({'blk': sd({k: v.detach()[rows].clone().requires_grad_(True) for k, v in d['blk'].items()})})
        b = m.compute_gradients(t, s, c, e)
        for k in a[2]['blk']:
            ctx.check_eq('rows {} {}'.format(rows, k), a[2]['blk'][k][rows], b[2]['blk'][k])
        ctx.check_same('particles', a[0], b[0])
        ctx.check_same('costates', a[1], b[1])


def flat(ctx, key, nl, Fe, K=2, pd=1, infl=2, size=None, N=1, blocks=None, analytic=False, grad=True):
    """what the solver sees: flat state in, flat derivative out, same order, no memory of earlier calls"""
    blocks = blocks or [('blk', Fe)]
    m = cm.build(key, nl, sum(f for _, f in blocks), K, pd=pd, infl=infl, size=size, use_analytic_solution=analytic)
    dim = 1 if cm.MODELS[key].conv else 2
    for tag, when in (('u', 'tu'), ('v', 'tu'), ('u', 'tv')):
        s, c, d = blocks_of(ctx, key, blocks, K, pd, infl, size, N, tag=tag)
        x, plans = m.assemble_tensor(s, c, d)
        m.set_auto_assembly_plans(plans)
        if not grad:
            x = x.detach()
        # other states at the same time, the same states at another time
        t = ctx.tensor(when, (), pos=True)
        out = m(t, x)
        ctx.check('shape', tuple(out.shape) == tuple(x.shape))
        gs, gc, gd, po = m.compute_gradients(t, s, c, d)
        want = torch.cat([gs[n][k].reshape(-1) for n in gs for k in gs[n]] + [gc[n][k].reshape(-1) for n in gc for k in gc[n]] +
                         [gd[n][k].reshape(-1) for n in gd for k in gd[n]])
        ctx.check_eq('derivative ' + tag, out, want)
        other = cm.build(key, nl, sum(f for _, f in blocks), K, pd=pd, infl=infl, size=size, use_analytic_solution=analytic)
        ctx.check_same('derivative of an untouched model ' + tag, other.compute_gradients(t, s, c, d)[0], gs)
        # the layout is the one of the input
        a, b, e = m.disassemble_tensor(out)
        f = cm.field(key, cm.params_of(po), cat(s, dim), nl)
        for k in s[blocks[0][0]]:
            ctx.check_eq('layout state ' + k, cat(a, dim)[k], f['dot_' + k])
        f = cm.field(key, cm.params_of(po), cat(d, dim), nl)
        for k in s[blocks[0][0]]:
            ctx.check_eq('layout data ' + k, cat(e, dim)[k], f['dot_' + k])


def cases(tier):
    out = []
    lim = {'generic': True}
    for key in cm.MODELS:
        M = cm.MODELS[key]
        if M.conv:
            for nl in (None, 'tanh', 'relu'):
                out.append(Case('{}-{}'.format(key, nl), applied, '1 particle, 2 samples, 1 channel, 2x2', lim, key=key, nl=nl, Fe=1, size=(2, 2)))
            out.append(Case(key + '-channels', applied, '1 particle, 2 channels, 1x2', lim, key=key, nl='tanh', Fe=2, size=(1, 2), N=1))
            out.append(Case(key + '-chained', applied, 'two blocks of 1 channel', lim, key=key, nl='tanh', Fe=2, size=(1, 2), N=2, blocks=[('a', 1), ('b', 1)], t0=True))
            out.append(Case(key + '-layers', arbitrary_layers, '2 samples, 2 channels, 2x2, arbitrary layers', lim, key=key, nl='sigmoid', Fe=2, size=(2, 2)))
            out.append(Case(key + '-permuted', permuted, '2 particles swapped, 1x2', lim, key=key, nl='tanh', Fe=1, K=2, size=(1, 2)))
            out.append(Case(key + '-samples', samplewise, '3 samples, 1x2', lim, key=key, nl='tanh', Fe=1, size=(1, 2)))
            out.append(Case(key + '-flat', flat, 'solver interface, 1x2', lim, key=key, nl='tanh', Fe=1, size=(1, 2), K=1))
        else:
            for nl in (None, 'relu', 'tanh', 'sigmoid'):
                out.append(Case('{}-{}'.format(key, nl), applied, '2 particles, 2 samples, 2 features, inflation 2', lim, key=key, nl=nl, Fe=2, K=2))
            out.append(Case(key + '-softmax', arbitrary_layers, '2 samples, 2 features, inflation 2, arbitrary layers', lim, key=key, nl='softmax', Fe=2, infl=2))
            out.append(Case(key + '-layers', arbitrary_layers, '2 samples, 2 features, inflation 3, arbitrary layers', lim, key=key, nl='sigmoid', Fe=2, infl=3))
            out.append(Case(key + '-pd', applied, 'particle dimension 2, data dimension 2', lim, key=key, nl='tanh', Fe=1, pd=2, infl=3))
            out.append(Case(key + '-lead', applied, 'data with an extra leading (time) dimension', lim, key=key, nl='tanh', Fe=1, lead=(2,), N=1))
            out.append(Case(key + '-chained', applied, 'two blocks with 1 and 2 features', lim, key=key, nl='tanh', Fe=3, blocks=[('a', 1), ('b', 2)], t0=True))
            out.append(Case(key + '-chained-lead', applied, 'two blocks, data with an extra leading dimension', lim, key=key, nl='tanh', Fe=3, blocks=[('a', 1), ('b', 2)], lead=(2,), N=1))
            out.append(Case(key + '-permuted', permuted, '3 particles in cyclic order', lim, key=key, nl='tanh', Fe=1, K=3, perm=(1, 2, 0)))
            out.append(Case(key + '-samples', samplewise, '3 samples', lim, key=key, nl='tanh', Fe=1))
            out.append(Case(key + '-flat', flat, 'solver interface', lim, key=key, nl='tanh', Fe=1))
            out.append(Case(key + '-flat-nograd', flat, 'solver interface, adjoint mode (input without gradient)', lim, key=key, nl='sigmoid', Fe=1, grad=False))
            out.append(Case(key + '-flat-chained', flat, 'solver interface, two blocks', lim, key=key, nl='tanh', Fe=2, blocks=[('a', 1), ('b', 1)], K=1))
            out.append(Case(key + '-many', applied, '10 particles, 12 samples, 1 feature, inflation 5', lim, key=key, nl='tanh', Fe=1, K=10, N=12, infl=5))
            out.append(Case(key + '-wide', applied, '1 particle, 5 features, inflation 1', lim, key=key, nl='tanh', Fe=5, K=1, infl=1))
            if M.analytic:
                out.append(Case(key + '-analytic', applied, 'analytic equations', lim, key=key, nl='tanh', Fe=2, K=2, use_analytic_solution=True))
                out.append(Case(key + '-analytic-samples', samplewise, 'analytic equations, 3 samples', lim, key=key, nl='tanh', Fe=1, analytic=True))
                out.append(Case(key + '-analytic-flat', flat, 'analytic equations, solver interface', lim, key=key, nl='tanh', Fe=1, analytic=True))
        if tier == 'thorough':
            if M.conv:
                for nl in ('tanh', 'relu', 'sigmoid'):
                    out.append(Case('{}-{}-big'.format(key, nl), applied, '2 particles, 3 samples, 2 channels, 2x3', lim, key=key, nl=nl, Fe=2, K=2, size=(2, 3), N=3))
                    out.append(Case('{}-{}-layers'.format(key, nl), arbitrary_layers, '3 samples, 3 channels, 3x3', lim, key=key, nl=nl, Fe=3, size=(3, 3), N=3))
            else:
                for nl in ('tanh', 'relu', 'sigmoid'):
                    out.append(Case('{}-{}-big'.format(key, nl), applied, '4 particles, 4 samples, 3 features, inflation 3', lim, key=key, nl=nl, Fe=3, K=4, N=4, infl=3))
                    out.append(Case('{}-{}-layers'.format(key, nl), arbitrary_layers, '4 samples, 4 features, inflation 4', lim, key=key, nl=nl, Fe=4, infl=4, N=4))
    for key in ('dampened', 'transport'):
        few = dict(key=key, Fe=1, K=1, infl=1) if key == 'transport' else dict(key=key, Fe=2, K=2)
        for nl in (None, 'tanh', 'relu'):
            out.append(Case('{}-{}'.format(key, nl), applied, '{K} particles, 2 samples, {Fe} features'.format(**few), lim, nl=nl, **few))
        out.append(Case(key + '-layers', arbitrary_layers, '2 samples, 2 features, arbitrary layers', lim, key=key, nl='sigmoid', Fe=2, infl=1 if key == 'transport' else 3))
        out.append(Case(key + '-t0', applied, 'one particle, 3 samples, time zero', lim, nl='tanh', t0=True, N=3, **dict(few, K=1, Fe=1)))
    out.append(Case('dampened-permuted', permuted, '3 particles in cyclic order', lim, key='dampened', nl='tanh', Fe=1, K=3, perm=(1, 2, 0)))
    out.append(Case('dampened-samples', samplewise, '3 samples', lim, key='dampened', nl='tanh', Fe=1))
    out.append(Case('dampened-flat', flat, 'solver interface', lim, key='dampened', nl='tanh', Fe=1))
    return out
