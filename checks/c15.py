"""C15: a block returns the transported data, at the final or at all requested times."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c07 import particles, same_gradient
from checks.c08 import check_start, check_result, dim_of, pieces

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: real blocks with symbolic particles, costates, inputs and initial-condition networks are run with a stand-in solver returning an arbitrary symbolic trajectory. What the solver is '
               'asked to integrate (start value, times, derivative) and what the block returns must be the stated ones, and gradients must reach particles, inputs and initial-condition parameters through both. '
               'Output times are symbolic; sequences of time settings and type conversions are applied first.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM, cm.KINK]
OUTSIDE = 'sizes beyond those listed per case; devices other than the CPU; two-dimensional models with extra leading data dimensions'

OPTIMISED = ['updown', 'universal', 'general', 'periodic', 'updownconv']


def hidden(ctx, key, b, x, nl, infl, option, lead):
    """the data a block starts from"""
    M = cm.MODELS[key]
    par = cm.own(b)
    out = sd({'q1': x})
    for k, size in M.states.items():
        if k == 'q1':
            continue
        c = dim_of(key) + lead
        shp = list(x.shape)
        shp[c] = size(x.shape[c], infl)
        if key == 'dampened' and k in ('c1', 'c2'):
            out[k] = torch.zeros(shp)
        elif key == 'symmetrized':
            out[k] = torch.cat([x] * (shp[c] // x.shape[c]), dim=c)
        elif option is None:
            out[k] = torch.zeros(shp)
        else:
            own = {n: v for n, v in par.items() if n not in M.states and not n.startswith('p_')}
            v = lambda part: [own[n] for n in own if part in n]
            if option == 'direct':
                ctx.check('one shared initial value', len(own) == 1)
                out[k] = next(iter(own.values())).expand(shp)
            elif option == 'linear':
                ctx.check('linear prediction', len(own) == 2)
                out[k] = layer(M, x, *two(own))
            else:
                ctx.check('network prediction', len(own) == 4)
                l1 = {n: t for n, t in own.items() if 'l1' in n}
                l2 = {n: t for n, t in own.items() if 'l2' in n}
                out[k] = layer(M, cm.NL[nl](layer(M, x, *two(l1))), *two(l2))
    return out


def two(own):
    w = [v for n, v in own.items() if n.endswith('weight')]
    b = [v for n, v in own.items() if n.endswith('bias')]
    return w[0], b[0]


def layer(M, x, w, b):
    if M.conv:
        return torch.einsum('oc,nchw->nohw', w[:, :, 0, 0], x) + b.reshape(1, -1, 1, 1)
    return torch.einsum('oc,...c->...o', w, x) + b


def timed(ctx, b, steps):
    """apply time settings and conversions; returns (times asked for, are all of them returned)"""
    t, many = torch.tensor([0.0, 1.0]), False
    for i, s in enumerate(steps):
        if s == 'to':
            e = ctx.scalar('T%d' % i, pos=True)
            b.set_integration_time(e)
            t, many = (0.0, e), False
        elif s == 'back':
            e = ctx.scalar('T%d' % i, sample=-1.5)
            ctx.assume(e < 0)
            b.set_integration_time(e)
            t, many = (0.0, e), False
        elif s == 'default':
            pass
        elif s.startswith('vec'):
            n = int(s[3:])
            d = ctx.tensor('dt%d' % i, (n,), pos=True)
            tv = torch.cumsum(d, dim=0) - d[0]
            b.set_integration_time_vector(tv, suppress_warning=True)
            t, many = tv, True
        elif s == 'late':
            d = ctx.tensor('dt%d' % i, (3,), pos=True)
            tv = torch.cumsum(d, dim=0)
            b.set_integration_time_vector(tv)
            t, many = tv, True
        elif s == 'double':
            ctx.check('conversion returns the block', b.double() is b)
        elif s == 'todouble':
            ctx.check('conversion returns the block', b.to(torch.float64) is b)
        elif s == 'cpu':
            ctx.check('conversion returns the block', b.to('cpu') is b and b.cpu() is b)
        elif s == 'eval':
            b.eval()
        elif s == 'train':
            b.train()
    return t, many


def one(ctx, key, nl='tanh', Fe=2, K=2, N=3, pd=1, infl=2, size=None, lead=(), option=None, steps=('default',), runs=1, affine=False, start_with=None, max_time=None, **kw):
    a = ctx.tensor('gain', (4,)) if affine else None

    def trajectory(n, func, x0, t):
        return torch.stack([a[i] * x0 for i in range(len(t))])

    S = cm.Solver(ctx, trajectory=trajectory if affine else None)
    opt = {} if option is None else dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=option)
    bkw = {} if max_time is None else dict(max_integration_time=ctx.scalar('Tmax', pos=True))
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, pd=pd, infl=infl, size=size, block_kw=bkw, **dict(opt, **kw))
    if lead:
        m.set_data_concatenation_dim(dim_of(key) + len(lead))
    t, many = timed(ctx, b, steps)
    if max_time is not None and not many and all(s == 'default' for s in steps):
        t = (0.0, ctx.scalar('Tmax', pos=True))
    for r in range(runs):
        x = ctx.tensor('x%d' % r, tuple(lead) + cm.shapes(key, Fe, N + r, pd, infl, size)['q1'], requires_grad=True)
        before = x.detach().clone()
        q, p = particles(key, b)
        want = (sd({'blk': q}), sd({'blk': p}), sd({'blk': hidden(ctx, key, b, x, nl, infl, option, len(lead))}))
        out = b(x) if r == 0 else b(x=x)
        ctx.check('one integration', len(S.calls) == r + 1)
        call = S.calls[-1]
        ctx.check('number of times', len(call['t']) == len(t))
        for i in range(len(t)):
            ctx.check_eq('time {}'.format(i), call['t'][i], t[i])
        check_start(ctx, 'start', call, m, *want)
        ctx.check_eq('input untouched', x, before)
        check_result(ctx, 'result', call, m, 'blk', out, key, len(lead), many)
        if many:
            ctx.check('time leads', tuple(out[0].shape) == (len(t),) + tuple(x.shape))
        else:
            ctx.check('size of the output', tuple(out[0].shape) == tuple(x.shape))
        if affine:
            # gradients reach everything the result depends on
            gain = a[:len(t)].reshape((len(t),) + (1,) * x.dim()) if many else a[len(t) - 1]
            ws = ctx.tensor('w%d' % r, tuple(out[0].shape))
            ctx.check_eq('output', out[0], gain * x)
            ends = [x] + [v for v in cm.own(b).values()]
            same_gradient(ctx, 'gradient of the output', ws * out[0], ws * gain * x, ends)
            gs = a[:len(t)] if many else a[len(t) - 1:len(t)]
            for what, got, exp in (('states', out[1], want[0]), ('costates', out[2], want[1]), ('data', out[3], want[2])):
                for k in exp['blk']:
                    e = torch.stack([g * exp['blk'][k] for g in gs]) if many else gs[0] * exp['blk'][k]
                    wk = ctx.tensor('w%d.%s.%s' % (r, what, k), tuple(e.shape))
                    same_gradient(ctx, 'gradient of {} {}'.format(what, k), wk * got['blk'][k], wk * e, ends)


def passes_derivative(ctx, key, nl='tanh', size=None):
    """the solver is given the model's own derivative of the flat state"""
    seen = []

    def evaluate(n, func, x0, t):
        y = ctx.tensor('y.at', tuple(x0.shape), requires_grad=True)
        seen.append((y, func(ctx.tensor('t.at', (), pos=True), y)))
    S = cm.Solver(ctx, evaluate=evaluate)
    b, m = cm.make_block(ctx, key, S, nl, 1, 2, size=size)
    x = ctx.tensor('x', cm.shapes(key, 1, 2, 1, 2, size)['q1'])
    b(x)
    y, dy = seen[0]
    s, c, d = pieces(m, y)
    ds, dc, dd = pieces(m, dy)
    P = cm.optimal_params(key, m, s['blk'], c['blk'], nl, lambda o, k: universal_weight(key, o, k))
    for got, src in ((ds, s), (dd, d)):
        want = cm.field(key, P, src['blk'], nl)
        for k in src['blk']:
            ctx.check_eq('derivative ' + k, got['blk'][k], want['dot_' + k])
    want = cm.hamilton_costate(key, cm.frozen(P), s['blk'], c['blk'], nl)
    for k in s['blk']:
        ctx.check_eq('derivative p_' + k, dc['blk']['p_' + k], want['dot_p_' + k])


def universal_weight(key, o, k):
    return 10. if key == 'universal' and (o, k) == ('l3', 'weight') else None


def refused(ctx, key, size=None):
    E = ValueError
    S = cm.Solver(ctx)
    b, m = cm.make_block(ctx, key, S, size=size)
    x = ctx.tensor('x', cm.shapes(key, 1, 1, 1, 2, size)['q1'])
    ctx.raises('no input', E, b)
    ctx.raises('parameters before the first pass', E, lambda: list(b.parameters()))
    ctx.raises('data twice', E, lambda: b(x=x, data_dict_of_dicts=sd({'blk': sd({'q1': x})})))
    ctx.check('nothing integrated', not S.calls)
    b(x)
    ctx.check('parameters after the first pass', len(list(b.parameters())) == len(list(b.named_parameters())))
    import neuro_shooting.shooting_blocks as sb
    ctx.raises('no integrand', E, sb.ShootingBlockBase, name='x')
    ctx.raises('integrand twice', E, sb.ShootingBlockBase, name='x', shooting_integrand=m, shooting_integrand_name='simple')
    ctx.raises('two particle-free modes', E, sb.ShootingBlockBase, name='x', shooting_integrand=m, use_particle_free_rnn_mode=True, use_particle_free_time_dependent_mode=True)
    if key in OPTIMISED:
        ctx.raises('unknown initial condition', E, cm.build, key, 'tanh', 1, 2, optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type='cubic')


def cases(tier):
    big = tier != 'quick'
    lim = {'generic': True}
    kw = dict(key='dampened')
    yield Case('dampened-final', one, 'default time, two passes with different batches', lim, runs=2, **kw)
    yield Case('dampened-times', one, '3 symbolic output times', lim, steps=('vec3',), **kw)
    yield Case('dampened-gradient', one, 'final time, gradients', lim, affine=True, steps=('to',), Fe=1, N=2, **kw)
    yield Case('dampened-derivative', passes_derivative, 'derivative at an arbitrary time and state', lim, **kw)
    for key in cm.MODELS:
        M = cm.MODELS[key]
        kw = dict(key=key, size=(2, 1) if M.conv else None)
        yield Case(key + '-final', one, 'default time, two passes with different batches', lim, runs=2, **kw)
        yield Case(key + '-times', one, '3 symbolic output times', lim, steps=('vec3',), **kw)
        yield Case(key + '-gradient', one, 'final time, gradients', lim, affine=True, steps=('to',), Fe=1, N=2, **kw)
        yield Case(key + '-gradient-times', one, '2 output times, gradients', lim, affine=True, steps=('vec2',), Fe=1, N=1, **kw)
        yield Case(key + '-backward', one, 'negative final time', lim, steps=('back',), Fe=1, **kw)
        yield Case(key + '-settings', one, 'time vector, then final time', lim, steps=('vec3', 'to'), Fe=1, **kw)
        yield Case(key + '-settings2', one, 'final time, then late time vector', lim, steps=('to', 'late'), Fe=1, **kw)
        yield Case(key + '-convert', one, 'time set, then converted', lim, steps=('to', 'double', 'cpu'), Fe=1, option='linear' if key in OPTIMISED else None, **kw)
        yield Case(key + '-convert2', one, 'time vector set, then converted', lim, steps=('vec2', 'todouble', 'eval', 'train'), Fe=1, **kw)
        yield Case(key + '-maximum', one, 'maximal integration time', lim, max_time=True, Fe=1, **kw)
        yield Case(key + '-single-time', one, 'a vector of one time', lim, steps=('vec1',), Fe=1, **kw)
        yield Case(key + '-one', one, 'one particle, one sample, one feature', lim, Fe=1, K=1, N=1, infl=1, **kw)
        if not M.conv:
            yield Case(key + '-many', one, '10 particles, 12 samples, inflation 5, 7 times', lim, Fe=2, K=10, N=12, infl=5, steps=('vec7',), **kw)
        yield Case(key + '-refused', refused, 'invalid use', lim, **kw)
        yield Case(key + '-derivative', passes_derivative, 'derivative at an arbitrary time and state', lim, **kw)
        if not M.conv:
            yield Case(key + '-pd', one, 'particle dimension 2', lim, pd=2, steps=('vec2',), **kw)
            yield Case(key + '-lead', one, 'data with a leading dimension', lim, lead=(2,), Fe=1, **kw)
            yield Case(key + '-lead-times', one, 'data with a leading dimension, all times', lim, lead=(2,), Fe=2, N=1, steps=('vec2',), **kw)
        if key in OPTIMISED:
            for o in ('direct', 'linear', 'mini_nn', 'Linear', 'MINI_NN'):
                if o == 'direct' and M.conv:
                    continue
                yield Case('{}-{}'.format(key, o), one, 'initial condition ' + o, lim, option=o.lower() if not o[0].isupper() else o, runs=2, N=2, **kw) if not o[0].isupper() else \
                    Case('{}-case-{}'.format(key, o), spelled, 'upper case option', lim, option=o, **kw)
                if not o[0].isupper():
                    yield Case('{}-{}-gradient'.format(key, o), one, 'initial condition {}, gradients'.format(o), lim, option=o, affine=True, Fe=1, N=2, nl='relu' if o == 'mini_nn' else 'tanh', **kw)
                    yield Case('{}-{}-times'.format(key, o), one, 'initial condition {}, all times'.format(o), lim, option=o, steps=('vec2',), N=1, nl='sigmoid', **kw)
                    if not M.conv:
                        yield Case('{}-{}-lead'.format(key, o), one, 'initial condition {}, leading dimension'.format(o), lim, option=o, lead=(2,), pd=1 if o != 'direct' else 2, N=2, Fe=2, **kw)
        if big:
            for nl in ('relu', 'sigmoid', None):
                yield Case('{}-big-{}'.format(key, nl), one, '3 features, 3 particles, 4 samples, inflation 3', lim, nl=nl, Fe=3, K=3, N=4, infl=3, steps=('vec4', 'to', 'vec4'), runs=3, key=key, size=(2, 3) if M.conv else None)


def spelled(ctx, key, option, size=None):
    """option names are matched without regard to case"""
    got = []
    for o in (option, option.lower()):
        S = cm.Solver(ctx)
        b, m = cm.make_block(ctx, key, S, 'tanh', 1, 2, size=size, optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=o)
        b(ctx.tensor('x', cm.shapes(key, 1, 2, 1, 2, size)['q1']))
        got.append(S.calls[0]['x0'])
    ctx.check_eq('same start', got[0], got[1])
