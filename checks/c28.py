"""C28: the experiments set up the block and the solver they were asked for."""
import types
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c07 import particles
from checks.c11 import Library, Field, grid
from checks.c12 import piece_parameters
from checks.c15 import hidden
from checks.c16 import check_derivative

EXP = {k: cm.demo(k) for k in ('spiral', 'rot', 'cc', 'balls')}

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the set-up functions of the experiments run with symbolic weights, step sizes and tolerances. The block they return is driven by a stand-in solver that evaluates the derivative at symbolic '
               'states; start value, layer parameters and equations must be those of the requested model, nonlinearity, weights and mode. Solver set-ups are checked against a stand-in for the solver library.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM, cm.KINK]
OUTSIDE = 'more particles, features and evaluations than listed; parsing of the command line'

KEY = {'updown': 'updown', 'updown_universal': 'universal', 'simple': 'simple', 'periodic': 'periodic'}


def block(ctx, exp, model, nl='tanh', Fe=2, K=2, infl=2, option=None, rnn=False, free=None, weighted=True, defaults=False, N=2, end=None):
    key = KEY[model]
    M = cm.MODELS[key]
    w = ctx.tensor('w', (), pos=True)
    w3 = ctx.tensor('w3', (), pos=True) if exp == 'spiral' else torch.tensor(0.1)
    S = cm.Solver(ctx)
    a = dict(integrator=S, shooting_model=model, nonlinearity=nl, inflation_factor=infl, nr_of_particles=K, parameter_weight=w)
    if exp == 'spiral':
        a['optional_weight'] = w3
        Fe = 2
    else:
        a['in_features'] = Fe
    if rnn:
        a['use_particle_rnn_mode'] = True
    if option:
        a.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=option)
    if free == 'rnn':
        a['use_particle_free_rnn_mode'] = True
    if free == 'time':
        a.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2)
    if end is not None:
        end = ctx.scalar('end', pos=True)
        a['max_integraton_time'] = end
    b = EXP[exp].setup_shooting_block(**a)
    m = b.shooting_integrand
    x = ctx.tensor('x', (N, 1, Fe))
    if free is None:
        S.trajectory = lambda n, f, x0, t: torch.stack([x0] * len(t))
        b(x)
        cm.symbolic_parameters(ctx, b, 'b')
        par = {n: tuple(p.shape) for n, p in cm.own(b).items()}
        shp = cm.shapes(key, Fe, K, 1, infl)
        ctx.check('particles', all(par.get(k) == v and par.get('p_' + k) == v for k, v in shp.items()))
        if not option:
            ctx.check('nothing else is optimised', len(par) == 2 * len(shp))
    else:
        b(x)
        cm.symbolic_parameters(ctx, b, 'b')
    S.trajectory, S.calls = None, []
    seen = []

    def evaluate(n, func, x0, t):
        P = None
        for j in range(2):
            y = ctx.tensor('z%d' % j, tuple(x0.shape), requires_grad=True)
            tt = t[0] + (t[-1] - t[0]) * (0.25 + 0.5 * j)
            dy = func(tt, y)
            if free:
                shp = {o: {k: tuple(v.shape) for k, v in d.items()} for o, d in cm.default_param_shapes(m).items()}
                if free == 'time':
                    Q = piece_parameters(b, 2, shp)[j]
                else:
                    Q = piece_parameters(b, 1, shp)[0]
                src, got = m.disassemble_tensor(y)[2]['simple'], m.disassemble_tensor(dy)[2]['simple']
                want = cm.field(key, Q, src, nl)
                for k in src:
                    ctx.check_eq('evaluation {} data {}'.format(j, k), got[k], want['dot_' + k])
            else:
                if P is None or not rnn:
                    s, c, _ = m.disassemble_tensor(y)
                    P = cm.optimal_params(key, m, s['simple'], c['simple'], nl, lambda o, k: w3 if key == 'universal' and (o, k) == ('l3', 'weight') else w)
                check_derivative(ctx, 'evaluation %d' % j, key, m, y, dy, P, nl)
        seen.append(n)

    S.evaluate = evaluate
    out = b(x)[0]
    ctx.check('one integration', seen == [0])
    c = S.calls[0]
    ctx.check_eq('from', c['t'][0], 0.0)
    ctx.check_eq('to', c['t'][-1], 1.0 if end is None else end)
    s, co, d = m.disassemble_tensor(c['x0'])
    want = hidden(ctx, key, b, x, nl, infl, option, 0) if not free else sd({'q1': x, **{k: torch.zeros(tuple(v.shape)) for k, v in d['simple'].items() if k != 'q1'}})
    for k in want:
        ctx.check_eq('data {} starts'.format(k), d['simple'][k], want[k])
    if not free:
        q, p = particles(key, b)
        for k in q:
            ctx.check_eq('particles {} start'.format(k), s['simple'][k], q[k])
            ctx.check_eq('costates {} start'.format(k), co['simple']['p_' + k], p['p_' + k])
    ctx.check_eq('output', out, m.disassemble_tensor(c['y'][-1])[2]['simple']['q1'])


def solver(ctx, exp, method, adj, cp=None, interval=False):
    mod = EXP[exp]
    with Library(ctx) as L:
        old = mod.generic_integrator
        mod.generic_integrator = L.module
        try:
            step, rtol, atol = ctx.scalar('step', pos=True), ctx.scalar('rtol', pos=True), ctx.scalar('atol', pos=True)
            kw = {}
            if cp is not None:
                kw = dict(nr_of_checkpoints=cp)
            if interval:
                kw = dict(checkpointing_time_interval=0.5)
            I = mod.setup_integrator(method=method, use_adjoint=adj, step_size=step, rtol=rtol, atol=atol, **kw)
            x0, f = ctx.tensor('x0', (2,)), Field(ctx.tensor('th', (2,)))
            t = torch.tensor([0.0, 0.25, 1.0])
            y = I.integrate(func=f, x0=x0, t=t)
        finally:
            mod.generic_integrator = old
        ctx.check_eq('solution', y, torch.stack([x0 + torch.tanh(u) - torch.tanh(t[0]) for u in t]))
        ctx.check('solver was asked', len(L.calls) == (1 if cp is None and not interval else 2 if interval else cp + 1))
        for c in L.calls:
            ctx.check('direct or adjoint', c['which'] == ('adjoint' if adj else 'direct'))
            ctx.check('method', c['method'] == method)
            ctx.check_eq('rtol', c['rtol'], rtol)
            ctx.check_eq('atol', c['atol'], atol)
            if method == 'rk4':
                ctx.check_eq('step size', c['options'].get('step_size'), step)
            else:
                ctx.check('no step size', 'step_size' not in c['options'])


def trajectory(ctx, N=2, n=3, key='updown'):
    """looking at a trajectory of the concentric circles does not change later predictions"""
    net = EXP['cc'].Model()
    S = cm.Solver(ctx)
    b, m = cm.make_block(ctx, key, S, 'tanh', 2, 2, name='simple')
    net.set_shooting_block(b)
    cm.symbolic_parameters(ctx, net.cls, 'cls')
    bn, lin = [l for l in net.cls if isinstance(l, torch.nn.BatchNorm1d)][0], [l for l in net.cls if isinstance(l, torch.nn.Linear)][0]
    ctx.set_values(bn.running_mean, 'mean')
    ctx.set_values(bn.running_var, 'var', pos=True)
    net.eval()
    x = ctx.tensor('x', (N, 1, 2))
    data = lambda v: m.disassemble_tensor(v)[2]['simple']['q1']
    for r in range(2):
        S.calls = []
        z, score = net(x)
        c, = S.calls
        ctx.check_eq('prediction: times {}'.format(r), torch.stack([c['t'][0], c['t'][-1]]), torch.tensor([0., 1.]))
        ctx.check_eq('transported {}'.format(r), z, data(c['y'][-1]))
        v = (z.reshape(N, 2) - bn.running_mean) / torch.sqrt(bn.running_var + bn.eps) * bn.weight + bn.bias
        ctx.check_eq('score {}'.format(r), score, v @ lin.weight.t())
        if r == 0:
            S.calls = []
            out = net.trajectory(x, N=n)
            c, = S.calls
            ctx.check_eq('trajectory: times', c['t'], torch.arange(n) / (n - 1.0))
            ctx.check_eq('trajectory', out[0], torch.stack([data(v) for v in c['y']]))


def optimizer(ctx, exp, decay=False):
    """every given parameter is optimised with the requested learning rate, which the scheduler controls"""
    mod = cm.demo(exp)
    ps = [torch.nn.Parameter(ctx.tensor('p%d' % i, (i + 1,))) for i in range(2)]
    lr, wd = ctx.scalar('lr', pos=True, sample=0.1), ctx.scalar('wd', pos=True, sample=0.01)
    if exp in ('rot', 'balls'):
        opt, sch = mod.setup_optimizer_and_scheduler(types.SimpleNamespace(lr=lr, niters=7), iter(ps))
    elif decay:
        opt, sch = mod.setup_optimizer_and_scheduler(iter(ps), lr=lr, weight_decay=wd)
    else:
        opt, sch = mod.setup_optimizer_and_scheduler(iter(ps), lr=lr)
    ctx.check('scheduler', sch.optimizer is opt)
    got = [p for g in opt.param_groups for p in g['params']]
    ctx.check('parameters', len(got) == len(ps) and all(a is b for a, b in zip(got, ps)))
    for g in opt.param_groups:
        ctx.check_eq('learning rate', g['lr'], lr)
        ctx.check_eq('weight decay', g['weight_decay'], wd if decay else 0)


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for exp in EXP:
        models = ['updown', 'updown_universal', 'simple'] + (['periodic'] if exp != 'rot' else [])
        for model in models:
            kw = dict(exp=exp, model=model)
            nm = '{}-{}'.format(exp, model)
            yield Case(nm, block, '2 particles, inflation 2', lim, **kw)
            yield Case(nm + '-relu', block, '3 particles, inflation 3, 1 sample, relu', lim, nl='relu', K=3, infl=3, N=1, Fe=1, **kw)
            yield Case(nm + '-rnn', block, 'RNN mode', lim, rnn=True, nl='sigmoid', **kw)
            yield Case(nm + '-free', block, 'directly optimised parameters', lim, free='rnn', **kw)
            if model != 'simple':
                for o in ('linear', 'mini_nn', 'direct'):
                    yield Case('{}-{}'.format(nm, o), block, 'initial condition ' + o, lim, option=o, **kw)
            if exp == 'spiral':
                yield Case(nm + '-time', block, 'time-dependent parameters', lim, free='time', end=True, **kw)
                yield Case(nm + '-end', block, 'maximal integration time', lim, end=True, **kw)
        for method in ('dopri5', 'adams', 'rk4'):
            for adj in (False, True):
                yield Case('{}-solver-{}-{}'.format(exp, method, adj), solver, 'any step size and tolerances', lim, exp=exp, method=method, adj=adj)
    for cp in (1, 2):
        yield Case('spiral-checkpoints-%d' % cp, solver, '%d checkpoints' % cp, lim, exp='spiral', method='rk4', adj=False, cp=cp)
    yield Case('spiral-interval', solver, 'checkpoint interval', lim, exp='spiral', method='rk4', adj=False, interval=True)
    yield Case('trajectory', trajectory, '3 times, 2 samples', lim)
    yield Case('trajectory-one', trajectory, '2 times, 1 sample', lim, N=1, n=2, key='universal')
    for exp in ('spiral', 'rot', 'balls', 'simple_functional_mapping_example'):
        yield Case('optimizer-' + exp, optimizer, 'any learning rate', lim, exp=exp)
    yield Case('optimizer-decay', optimizer, 'any learning rate and weight decay', lim, exp='simple_functional_mapping_example', decay=True)
