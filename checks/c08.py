"""C08: chaining blocks continues the flow; channels a block adds start at zero for the data."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c07 import data_input, particles

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: chains of real blocks with symbolic particles, costates and inputs are run with a stand-in solver that returns an arbitrary symbolic trajectory. '
               'What each block asks the solver to integrate must be exactly what the block before returned (plus its own particles and zero data channels), and what it returns must be the '
               'trajectory, concatenated along channels. Further cases run the real fixed-step solver over one and over two intervals.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM]
OUTSIDE = 'sizes beyond those listed per case; switching off concatenation of blocks (not supported by the supplied models)'


def dim_of(key):
    return 1 if cm.MODELS[key].conv else 2


def pieces(m, vec, dim=0):
    s, c, d = m.disassemble_tensor(vec, dim=dim)
    return s, c, d


def joined(x, dim):
    first = x[sorted(x)[0]]
    return sd({k: torch.cat([x[n][k] for n in sorted(x)], dim=dim) for k in first})


def check_start(ctx, label, call, m, states, costates, data):
    s, c, d = pieces(m, call['x0'])
    ctx.check_same(label + ' states', s, states)
    ctx.check_same(label + ' costates', c, costates)
    ctx.check_same(label + ' data', d, data)


def check_result(ctx, label, call, m, name, out, key, lead=0, times=False):
    """outputs are the trajectory, concatenated along channels"""
    res, s, c, d = out
    y = call['y'] if times else call['y'][-1]
    ys, yc, yd = pieces(m, y, dim=1 if times else 0)
    off = 1 if times else 0
    for what, got, traj, dim in (('states', s, ys, dim_of(key)), ('costates', c, yc, dim_of(key)), ('data', d, yd, dim_of(key) + lead)):
        ctx.check('{} {}: one block'.format(label, what), list(got) == [name])
        ctx.check_same('{} {}'.format(label, what), got[name], joined(traj, dim + off))
    ctx.check_eq(label + ' output', res, joined(yd, dim_of(key) + lead + off)['q1'])


def second(ctx, key, S, nl, Fe, total, K, size, infl, name, own=True, pd=1, block_kw=None, **kw):
    """a block for `total` features, Fe of them its own"""
    import neuro_shooting.shooting_blocks as sb
    a = dict(kw)
    if own:
        a.update(dict(particle_dimension=Fe) if cm.MODELS[key].conv else dict(particle_size=Fe))
    else:
        a.update(is_pass_through=True)
    m = cm.build(key, nl, total, K, infl=infl, size=size, pd=pd, **a)
    b = sb.ShootingBlockBase(name=name, shooting_integrand=m, integrator=S, **(block_kw or {}))
    cm.symbolic_parameters(ctx, b, name)
    return b, m


def start_of(ctx, key, b, m, x, nl):
    """the first block starts from its particles and the input"""
    q, p = particles(key, b)
    d = m.get_initial_data_dict_from_data_tensor(x)
    return sd({'a': q}), sd({'a': p}), sd({'a': d})


def chain(ctx, key, nl='tanh', Fe=1, K=2, N=2, size=None, infl=2, names=('a', 'b', 'c'), plan=('own', 'pass', 'own'), lead=(), times=False, features=(2, 1, 1), pd=1, repeat=1, gradient=False, block_kw=None):
    S = cm.Solver(ctx)
    if gradient:
        S.trajectory = lambda n, func, x0, t: ctx.tensor('y%d' % n, (len(t),) + tuple(x0.shape), requires_grad=True)
    total = features[0]
    b, m = cm.make_block(ctx, key, S, nl, total, K, size=size, infl=infl, name=names[0], pd=pd)
    if lead:
        m.set_data_concatenation_dim(dim_of(key) + len(lead))
    blocks = [(names[0], b, m, total)]
    for n, what, f in zip(names[1:], plan[1:], features[1:]):
        if what == 'own':
            total += f
        b, m = second(ctx, key, S, nl, f, total, K, size, infl, n, own=(what == 'own'), pd=pd, block_kw=block_kw)
        blocks.append((n, b, m, total))
    for r in range(repeat):
        x = ctx.tensor('x{}'.format(r), tuple(lead) + cm.shapes(key, features[0], N + r, pd, infl, size)['q1'])
        prev = None
        for i, (n, b, m, tot) in enumerate(blocks):
            last = i == len(blocks) - 1
            if times and last:
                tv = ctx.tensor('tv', (3,), pos=True)
                b.set_integration_time_vector(tv)
            if prev is None:
                q, p = particles(key, b)
                want = (sd({n: q}), sd({n: p}), sd({n: m.get_initial_data_dict_from_data_tensor(x)}))
                out = b(x=x)
            else:
                s, c, d = prev
                want = [sd({k: v for k, v in z.items()}) for z in (s, c, d)]
                if plan[i] == 'own':
                    q, p = particles(key, b)
                    want[0][n] = q
                    want[1][n] = p
                    z = sd({})
                    src = next(iter(d))
                    for k in q:
                        shp = list(d[src][k].shape)
                        # spatial size of the data, channels of the block's own state
                        shp[dim_of(key) + len(lead)] = q[k].shape[dim_of(key)]
                        z[k] = torch.zeros(shp)
                    want[2][n] = z
                out = b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
            call = S.calls[-1]
            ctx.check('one integration per block', len(S.calls) == r * len(blocks) + i + 1)
            check_start(ctx, 'start of ' + n, call, m, *want)
            check_result(ctx, 'result of ' + n, call, m, n, out, key, len(lead), times and last)
            if gradient:
                # nothing is cut off from the graph: derivatives of the squares are twice the values
                if prev is not None:
                    ps = cm.values(*prev)
                    if plan[i] == 'own':
                        ps += list(q.values()) + list(p.values())
                    cm.gradients_pass(ctx, 'start of ' + n, ps, [call['x0']])
                y = call['y']
                g, = cm.grads(sum((v * v).sum() for v in cm.values(*out[1:])), [y])
                ctx.check_eq('result of {}: gradient'.format(n), g, 2 * y if times and last else torch.cat([torch.zeros_like(y[:-1]), 2 * y[-1:]]))
                v = out[3][n]['q1']
                ctx.check_eq('output of {}: gradient'.format(n), cm.grads((out[0] * out[0]).sum(), [y])[0], cm.grads((v * v).sum(), [y])[0])
            prev = out[1:]


def received(ctx, key, nl='tanh', Fe=1, size=None, infl=2, runs=((2, 3), (3, 1), (2, 3), (1, 5))):
    """a pass-through block continues whatever it is given: any number of particles and samples, one after the other"""
    S = cm.Solver(ctx)
    b, m = second(ctx, key, S, nl, Fe, Fe, 2, size, infl, 'b', own=False)
    for r, (K, N) in enumerate(runs):
        s, c, d = cm.sym_all(ctx, key, Fe, K, infl=infl, size=size, N=N, tag='r%d' % r)
        out = b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
        check_start(ctx, 'run {}: start'.format(r), S.calls[-1], m, s, c, d)
        check_result(ctx, 'run {}: result'.format(r), S.calls[-1], m, 'b', out, key)


def real(ctx, key, nl='tanh', Fe=1, K=1, size=None, method='euler'):
    """two chained integrations equal one over both intervals (real fixed-step solver)"""
    import neuro_shooting.generic_integrator as gi
    mk = lambda: gi.GenericIntegrator(integrator_library='odeint', integrator_name=method, integrator_options={'step_size': 0.5})
    b1, m1 = cm.make_block(ctx, key, mk(), nl, Fe, K, size=size, infl=1, name='a')
    b2, m2 = second(ctx, key, mk(), nl, Fe, Fe, K, size, 1, 'b', own=False)
    x = data_input(ctx, key, Fe, 1, size)
    b1.set_integration_time(0.5)
    b2.set_integration_time(0.5)
    r1, s1, c1, d1 = b1(x=x)
    r2, s2, c2, d2 = b2(pass_through_state_dict_of_dicts=s1, pass_through_costate_dict_of_dicts=c1, data_dict_of_dicts=d1)
    b1.set_integration_time(1.0)
    r, s, c, d = b1(x=x)
    ctx.check_eq('output', r2, r)
    ctx.check_same('states', s2['b'], s['a'])
    ctx.check_same('costates', c2['b'], c['a'])
    ctx.check_same('data', d2['b'], d['a'])


def refused(ctx, key, size=None):
    S = cm.Solver(ctx)
    b1, m1 = cm.make_block(ctx, key, S, size=size, name='a')
    x = data_input(ctx, key, 1, 1, size)
    _, s, c, d = b1(x=x)
    b2, m2 = second(ctx, key, S, 'tanh', 1, 2, 2, size, 2, 'a')
    go = lambda b, **k: b(**k)
    E = (ValueError, KeyError, AssertionError, TypeError, RuntimeError)
    ctx.raises('block name used twice', E, go, b2, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
    b3, m3 = second(ctx, key, S, 'tanh', 1, 2, 2, size, 2, 'b')
    ctx.raises('only states', E, go, b3, pass_through_state_dict_of_dicts=s, data_dict_of_dicts=d)
    ctx.raises('only costates', E, go, b3, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
    ctx.raises('data twice', E, go, b3, x=x, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
    ctx.raises('no data', E, go, b3, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c)
    ctx.raises('nothing', E, go, b3)
    ctx.check('nothing was integrated', len(S.calls) == 1)


def cases(tier):
    out = []
    lim = {'generic': True}
    for key in cm.MODELS:
        M = cm.MODELS[key]
        size = (2, 1) if M.conv else None
        kw = dict(key=key, size=size)
        out.append(Case(key + '-chain', chain, 'three blocks (own, pass-through, own), 2 features plus 1', lim, **kw))
        out.append(Case(key + '-order', chain, 'three blocks with names not in order of use', lim, names=('z', 'm', 'a'), plan=('own', 'own', 'own'), features=(1, 2, 1), **kw))
        out.append(Case(key + '-twice', chain, 'two blocks, two passes', lim, names=('a', 'b'), plan=('own', 'own'), features=(1, 1), repeat=2, **kw))
        out.append(Case(key + '-times', chain, 'two blocks, all times of the last', lim, names=('a', 'b'), plan=('own', 'own'), features=(2, 1), times=True, **kw))
        out.append(Case(key + '-pass-times', chain, 'pass-through, all times of the last', lim, names=('a', 'b'), plan=('own', 'pass'), features=(2, 0), times=True, **kw))
        if not M.conv:
            out.append(Case(key + '-lead', chain, 'data with an extra leading dimension', lim, names=('a', 'b'), plan=('own', 'own'), features=(2, 1), lead=(3,), **kw))
            out.append(Case(key + '-lead-times', chain, 'data with an extra leading dimension, all times', lim, names=('a', 'b'), plan=('own', 'own'), features=(2, 1), lead=(3,), times=True, **kw))
            out.append(Case(key + '-pd', chain, 'particle dimension 2', lim, names=('a', 'b'), plan=('own', 'own'), features=(2, 1), pd=2, **kw))
        if not M.conv:
            out.append(Case(key + '-many', chain, '10 particles, inflation 5, 7 samples, two blocks', lim, names=('b9', 'b10'), plan=('own', 'own'), features=(3, 2), K=10, N=7, infl=5, **kw))
        out.append(Case(key + '-gradients', chain, 'three blocks, gradients', lim, gradient=True, K=2, N=7, infl=1, features=(2, 0, 1), **kw))
        out.append(Case(key + '-gradients-times', chain, 'two blocks, all times, gradients', lim, gradient=True, times=True, names=('a', 'b'), plan=('own', 'own'), features=(1, 1), K=1, **kw))
        out.append(Case(key + '-no-enlargement', chain, 'two blocks, enlargement switched off, gradients', lim, gradient=True, names=('a', 'b'), plan=('own', 'own'), features=(1, 1), K=1, block_kw=dict(enlarge_pass_through_states_and_costates=False), **kw))
        out.append(Case(key + '-received', received, '4 passes with different numbers of particles and samples', lim, **kw))
        out.append(Case(key + '-refused', refused, 'inconsistent inputs', lim, **kw))
        if not M.conv:
            out.append(Case(key + '-real', real, 'real Euler solver, two intervals of one step', lim, **kw))
        if True:
            big = dict(kw, size=(2, 3) if M.conv else None)
            out.append(Case(key + '-five', chain, 'five blocks', lim, names=('a', 'b', 'c', 'd', 'e'), plan=('own', 'pass', 'own', 'pass', 'own'), features=(2, 0, 2, 0, 1), repeat=2, K=3, N=3, infl=3, **big))
    return out
