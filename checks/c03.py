"""C03: the layer parameters the particles generate are the stationary point of the shooting energy."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: each model computes its layer parameters from a symbolic particle configuration; every entry must equal '
               '(1/weight) * d/dtheta of the particle average of <costate, model equation>, obtained from the equations stated for the model and '
               'independently of the code under test.  Randomly initialised layers are fresh symbols, so the equality also shows the result does not depend on them.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.KINK, cm.RANDOM, 'denominators (weights) are positive']
OUTSIDE = 'sizes beyond those listed per case; filters other than 3x3; the nonlinear-in-parameter optimal transport model; chained blocks of the model with learned dampening states'


def weights(ctx, key, weighted):
    kw = {}
    w = w3 = None
    if weighted == 'own':
        own = lambda o, k: ctx.tensor('w.{}.{}'.format(o, k), (), pos=True)
        return dict(own_weights=own), own
    if weighted:
        w = ctx.tensor('w', (), pos=True)
        kw['parameter_weight'] = w
    if key == 'universal':
        w3 = ctx.tensor('w3', (), pos=True)
        kw['optional_weight'] = w3
    return kw, (lambda o, k: w3 if (key == 'universal' and (o, k) == ('l3', 'weight')) else w)


def stationary(ctx, key, nl, Fe, K, infl=2, pd=1, size=None, weighted=True, t0=False, blocks=None, analytic=False, shuffle=False):
    kw, w = weights(ctx, key, weighted)
    t = torch.zeros(()) if t0 else ctx.tensor('t', ())
    names = blocks or [('blk', Fe)]
    total = sum(f for _, f in names)
    m = cm.build(key, nl, total, K, pd=pd, infl=infl, size=size, use_analytic_solution=analytic, **kw)
    s, c = sd({}), sd({})
    for n, f in names:
        shp = cm.shapes(key, f, K, pd, infl, size)
        s[n] = cm.sym_states(ctx, n + '.q', shp)
        c[n] = cm.sym_states(ctx, n + '.p', shp, costate=True)
    d = sd({n: cm.sym_states(ctx, n + '.x', cm.shapes(key, f, 1, pd, infl, size)) for n, f in names})
    po = cm.params_of(m.compute_gradients(t, s, c, d)[3])
    dim = 1 if cm.MODELS[key].conv else 2
    cat = lambda x: sd({k: torch.cat([x[n][k] for n in x], dim=dim) for k in x[names[0][0]]})
    want = cm.optimal_params(key, m, cat(s), cat(c), nl, w)
    ctx.check('parameter names', sorted((o, k) for o in po for k in po[o]) == sorted((o, k) for o in want for k in want[o]))
    for o in want:
        for k in want[o]:
            ctx.check_eq('{}.{}'.format(o, k), po[o][k].reshape(-1), want[o][k].reshape(-1))


def energies(ctx, key, nl, Fe=1, K=2, infl=2, size=None, weighted=True, blocks=None, configured=None, single=None):
    """the energies themselves, for arbitrary layer parameters and (reduced) for the optimal ones"""
    kw, w = weights(ctx, key, weighted)
    names = blocks or [('blk', Fe)]
    m = cm.build(key, nl, sum(f for _, f in names), configured or K, infl=infl, size=size, **kw)
    s, c = sd({}), sd({})
    for n, f in names:
        shp = cm.shapes(key, f, K, 1, infl, size)
        s[n] = cm.sym_states(ctx, n + '.q', shp)
        c[n] = cm.sym_states(ctx, n + '.p', shp, costate=True)
    po = m.create_default_parameter_objects()
    own = {}
    for o in po:
        d = po[o].get_parameter_dict()
        for k in d:
            d[k] = ctx.tensor('theta.{}.{}'.format(o, k), tuple(d[k].shape), requires_grad=True)
    if single is not None:
        # a weight of its own for one parameter
        o = sorted(po)[0]
        k = sorted(po[o].get_parameter_dict())[-1]
        own[(o, k)] = ctx.tensor('single', (), pos=True)
        po[o].add_weight(k, own[(o, k)])
    ww = lambda o, k: own.get((o, k), w(o, k))
    t = ctx.tensor('t', ())
    dim = 1 if cm.MODELS[key].conv else 2
    cat = lambda x: sd({k: torch.cat([x[n][k] for n in x], dim=dim) for k in x[names[0][0]]})
    P = cm.params_of(po)

    def parts(P, ww):
        T = 0.5 * sum((v ** 2).sum() * (1 if ww(o, k) is None else ww(o, k)) for o in P for k, v in P[o].items())
        q, p = cat(s), cat(c)
        f = cm.field(key, P, q, nl)
        return T, sum((p['p_' + k] * f['dot_' + k]).sum() for k in q) / K

    T, U = parts(P, ww)
    ctx.check_eq('parameter energy', m.compute_kinetic_energy(t, po).reshape(()), T)
    ctx.check_eq('pairing', m.compute_potential_energy(t=t, state_dict_of_dicts=s, costate_dict_of_dicts=c, parameter_objects=po).reshape(()), U)
    L3 = m.compute_lagrangian(t=t, state_dict_of_dicts=s, costate_dict_of_dicts=c, parameter_objects=po)
    for n, a, b in zip(('Lagrangian', 'parameter energy (2)', 'pairing (2)'), L3, (T - U, T, U)):
        ctx.check_eq(n, a.reshape(()), b)
    T, U = parts(cm.optimal_params(key, m, cat(s), cat(c), nl, w), w)
    R = m.compute_reduced_lagrangian(t=t, state_dict_of_dicts=s, costate_dict_of_dicts=c)
    for n, a, b in zip(('reduced Lagrangian', 'reduced parameter energy', 'reduced pairing'), R, (T - U, T, U)):
        # reported for all particles together
        ctx.check_eq(n, a.reshape(()), K * b)


def cases(tier):
    out = []
    lim = {'generic': True}
    for key in cm.MODELS:
        conv = cm.MODELS[key].conv
        if conv:
            for nl in (None, 'tanh', 'relu'):
                out.append(Case('{}-{}'.format(key, nl), stationary, '2 particles, 1 channel, 2x2, any weight', lim, key=key, nl=nl, Fe=1, K=2, size=(2, 2)))
            out.append(Case(key + '-channels', stationary, '1 particle, 2 channels, 1x2 image, inflation 2', lim, key=key, nl='tanh', Fe=2, K=1, size=(1, 2)))
            out.append(Case(key + '-t0', stationary, '3 particles, 1 channel, 1x2, no weight, t=0', lim, key=key, nl='sigmoid', Fe=1, K=3, size=(1, 2), weighted=False, t0=True))
            out.append(Case(key + '-chained', stationary, 'two blocks of 1 channel each', lim, key=key, nl='tanh', Fe=2, K=2, size=(1, 2), blocks=[('a', 1), ('b', 1)]))
        else:
            for nl in (None, 'relu', 'tanh', 'sigmoid', 'softmax'):
                out.append(Case('{}-{}'.format(key, nl), stationary, '2 particles, 2 features, inflation 2, any weight', lim, key=key, nl=nl, Fe=2, K=2))
            out.append(Case(key + '-pd2', stationary, 'particle dimension 2, 2 particles, 1 feature', lim, key=key, nl='tanh', Fe=1, K=2, pd=2))
            out.append(Case(key + '-k3', stationary, '3 particles, 1 feature, inflation 3, no weight, t=0', lim, key=key, nl='tanh', Fe=1, K=3, infl=3, weighted=False, t0=True))
            out.append(Case(key + '-k1', stationary, '1 particle, 2 features, inflation 1', lim, key=key, nl='sigmoid', Fe=2, K=1, infl=1))
            out.append(Case(key + '-chained', stationary, 'two blocks with 1 and 2 features', lim, key=key, nl='tanh', Fe=3, K=2, infl=2, blocks=[('a', 1), ('b', 2)]))
            out.append(Case(key + '-many', stationary, '10 particles, 1 feature, inflation 5', lim, key=key, nl='tanh', Fe=1, K=10, infl=5))
            out.append(Case(key + '-wide', stationary, '1 particle, 5 features, inflation 1', lim, key=key, nl='tanh', Fe=5, K=1, infl=1))
            if cm.MODELS[key].analytic:
                out.append(Case(key + '-analytic', stationary, 'analytic equations, 2 particles, 2 features', lim, key=key, nl='tanh', Fe=2, K=2, analytic=True))
        size = (1, 2) if conv else None
        out.append(Case(key + '-own', stationary, 'every layer parameter with a weight of its own', lim, key=key, nl='tanh', Fe=1, K=2, size=size, weighted='own'))
        if cm.MODELS[key].analytic:
            out.append(Case(key + '-own-analytic', stationary, 'every layer parameter with a weight of its own, analytic equations', lim, key=key, nl='tanh', Fe=1, K=2, weighted='own', analytic=True))
        out.append(Case(key + '-energies', energies, '2 particles, any layer parameters and weights', lim, key=key, nl='tanh', size=size, single=True))
        out.append(Case(key + '-energies-plain', energies, '1 particle, no weight', lim, key=key, nl=None, K=1, size=size, weighted=False))
        out.append(Case(key + '-energies-received', energies, '3 particles met, 2 configured', lim, key=key, nl='tanh', K=1 if key == 'convbatch' else 3, configured=2, size=size))
        if key != 'convbatch':
            out.append(Case(key + '-energies-chained', energies, 'two blocks', lim, key=key, nl='tanh', size=size, blocks=[('a', 1), ('b', 1)]))
        if tier == 'thorough':
            if conv:
                for nl in ('tanh', 'relu', 'sigmoid', 'softmax'):
                    out.append(Case('{}-{}-big'.format(key, nl), stationary, '2 particles, 2 channels, 3x2', lim, key=key, nl=nl, Fe=2, K=2, size=(3, 2)))
                out.append(Case(key + '-chained3', stationary, 'three blocks', lim, key=key, nl='tanh', Fe=3, K=1, size=(1, 2), blocks=[('a', 1), ('b', 1), ('c', 1)]))
            else:
                for nl in ('tanh', 'relu', 'sigmoid', 'softmax'):
                    out.append(Case('{}-{}-big'.format(key, nl), stationary, '4 particles, 3 features, inflation 3', lim, key=key, nl=nl, Fe=3, K=4, infl=3))
                out.append(Case(key + '-pd3', stationary, 'particle dimension 3', lim, key=key, nl='tanh', Fe=2, K=2, pd=3))
                out.append(Case(key + '-chained3', stationary, 'three blocks', lim, key=key, nl='tanh', Fe=4, K=2, infl=2, blocks=[('c', 1), ('b', 2), ('a', 1)]))
    for nl in (None, 'tanh', 'relu'):
        out.append(Case('dampened-{}'.format(nl), stationary, '2 particles, 2 features, inflation 2, any weight', lim, key='dampened', nl=nl, Fe=2, K=2))
    out.append(Case('dampened-k3', stationary, '3 particles, 1 feature, inflation 3, no weight, t=0', lim, key='dampened', nl='sigmoid', Fe=1, K=3, infl=3, weighted=False, t0=True))
    out.append(Case('dampened-energies', energies, '2 particles, any layer parameters and weights', lim, key='dampened', nl='tanh', single=True))
    return out
