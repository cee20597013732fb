"""C24: the residual network composes its layers in order."""
import torch
import torch.nn.functional as F
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c08 import joined
from checks.c16 import check_derivative

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the network runs with symbolic images, weights, statistics, particles and costates and a stand-in solver that returns arbitrary (or affine) trajectories. What every block hands to the solver, '
               'the scores and their gradients must be those of composing input layer, blocks, striding and classification by hand from the same modules.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.KINK, cm.RANDOM]
OUTSIDE = 'larger images, more layers, blocks, particles, classes than listed; layers without additional channels; the default solver (C11)'


def blocks_of(net):
    import neuro_shooting.shooting_blocks as sb
    return [m for m in net.modules() if isinstance(m, sb.ShootingBlockBase)]


def one(net, kind):
    found = [m for m in net.children() if isinstance(m, kind)]
    return found[0]


def network(ctx, S, channels, blocks, particles, K, classes, stride, nl, image, model, kwargs, init):
    import neuro_shooting.res_net as rn
    import neuro_shooting.shooting_models as sm
    kw = {}
    if model is not None:
        kw['shooting_model'] = getattr(sm, cm.MODELS[model].cls)
    if kwargs is not None:
        kw['shooting_model_kwargs'] = kwargs
    if init is not None:
        kw['state_initializer'], kw['costate_initializer'] = init
    return rn.BasicResNet(nr_of_image_channels=image, layer_channels=list(channels), nr_of_blocks_per_layer=list(blocks), downsampling_stride=stride, nonlinearity=nl,
                          particle_sizes=[list(p) for p in particles], nr_of_particles=K, nr_of_classes=classes, integrator=S, **kw)


def compose(net, x, blocks, stride, nl, training):
    """by hand"""
    import neuro_shooting.striding_block as st
    conv, bn, lin = one(net, torch.nn.Conv2d), one(net, torch.nn.BatchNorm2d), one(net, torch.nn.Linear)
    y = F.conv2d(x, conv.weight, conv.bias, padding=1)
    if training:
        d = (0, 2, 3)
        mu, var = y.mean(d, keepdim=True), y.var(d, unbiased=False, keepdim=True)
    else:
        mu, var = bn.running_mean.reshape(1, -1, 1, 1), bn.running_var.reshape(1, -1, 1, 1)
    y = (y - mu) / torch.sqrt(var + bn.eps) * bn.weight.reshape(1, -1, 1, 1) + bn.bias.reshape(1, -1, 1, 1)
    y = cm.NL[nl](y)
    bl = blocks_of(net)
    out, i = None, 0
    for layer, n in enumerate(blocks):
        for _ in range(n):
            out = bl[i](x=y) if out is None else bl[i](data_dict_of_dicts=out[3], pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2])
            i += 1
        if layer < len(blocks) - 1:
            s = st.ShootingStridingBlock(stride=[stride] * 2, stride_dims=[2, 3])
            out = (None,) + tuple(s(state_dict_of_dicts=out[1], costate_dict_of_dicts=out[2], data_dict_of_dicts=out[3]))
    r = F.adaptive_max_pool2d(out[0], 1).flatten(1)
    return r @ lin.weight.t() + lin.bias


def composed(ctx, channels=(1, 2), blocks=(1, 1), particles=((2, 2), (1, 1)), K=1, classes=2, stride=2, nl='tanh', image=1, N=1, size=(2, 2), model=None, kwargs=None, training=False, gradient=False, affine=False, passes=1, named=None):
    torch.manual_seed(0)
    rec = {'n': 0}

    def trajectory(n, func, x0, t):
        # the same for the network and for the composition by hand
        k = n % total
        if rec['n'] == 0:
            return torch.stack([x0] * len(t))
        shape = tuple(x0.shape)
        b = ctx.tensor('y%d.%d.%d' % (rec['n'], k, shape[0]), shape)
        if not affine:
            return torch.stack([x0] * (len(t) - 1) + [b])
        return torch.stack([x0] * (len(t) - 1) + [x0 * ctx.tensor('a%d' % k, ()) + b])

    total = sum(blocks)
    S = cm.Solver(ctx, trajectory=trajectory)
    net = network(ctx, S, channels, blocks, particles, K, classes, stride, nl, image, model, kwargs, None)
    net.train(training)
    ctx.raises('parameters before they exist', ValueError, net.parameters)
    bl = blocks_of(net)
    ctx.check('one block each', len(bl) == total)
    net(torch.zeros((2, image) + tuple(size)))
    for i, b in enumerate(bl):
        cm.symbolic_parameters(ctx, b, 'b%d' % i)
    for kind, tag in ((torch.nn.Conv2d, 'conv'), (torch.nn.BatchNorm2d, 'bn'), (torch.nn.Linear, 'lin')):
        m = one(net, kind)
        cm.symbolic_parameters(ctx, m, tag)
        if kind is torch.nn.BatchNorm2d:
            ctx.set_values(m.running_mean, 'mean')
            ctx.set_values(m.running_var, 'var', pos=True)
    for r in range(passes):
        rec['n'] = r + 1
        x = ctx.tensor('x%d' % r, (N + r, image) + tuple(size), requires_grad=gradient)
        S.calls = []
        got = net(x)
        ctx.check('scores', tuple(got.shape) == (N + r, classes))
        calls = S.calls
        ctx.check('every block integrates once', len(calls) == total)
        layer = [l for l, n in enumerate(blocks) for _ in range(n)]
        first = [i for i in range(total) if i == 0 or layer[i] != layer[i - 1]]
        for i, c in enumerate(calls):
            s, co, d = c['func'].disassemble_tensor(c['x0']) if hasattr(c['func'], 'disassemble_tensor') else bl[i].shooting_integrand.disassemble_tensor(c['x0'])
            l = layer[i]
            for what, dd in (('states', s), ('data', d)):
                have = sum(dd[n]['q1'].shape[1] for n in dd)
                ctx.check('channels of the {} in block {}'.format(what, i), have == channels[l])
            ctx.check('particles in block %d' % i, all(s[n]['q1'].shape[0] == K and tuple(s[n]['q1'].shape[2:]) == tuple(particles[l]) for n in s))
            ctx.check('samples in block %d' % i, all(d[n]['q1'].shape[0] == N + r for n in d))
            if i not in first:
                ctx.check('block %d adds nothing' % i, not cm.own(bl[i]))
            else:
                ctx.check('block %d adds its channels' % i, any(tuple(p.shape) == (K, channels[l] - (channels[l - 1] if l else 0)) + tuple(particles[l]) for n, p in cm.own(bl[i]).items() if n == 'q1'))
        ps = list(net.parameters())
        ctx.check('all parameters', len(ps) == len(set(map(id, ps))) and set(map(id, ps)) == {id(p) for m in list(bl) + [one(net, k) for k in (torch.nn.Conv2d, torch.nn.BatchNorm2d, torch.nn.Linear)] for p in m.parameters()})
        S.calls = []
        want = compose(net, x, blocks, stride, nl, training)
        for i, (a, b) in enumerate(zip(calls, S.calls)):
            ctx.check_eq('block %d starts' % i, a['x0'], b['x0'])
        ctx.check_eq('scores', got, want)
        if gradient:
            w = ctx.tensor('w%d' % r, tuple(got.shape))
            for i, (a, b) in enumerate(zip(cm.grads((got * w).sum(), [x] + ps), cm.grads((want * w).sum(), [x] + ps))):
                ctx.check_eq('gradient %d' % i, a, b)


def equations(ctx, channels=(1, 2), blocks=(2, 2), particles=((2, 2), (1, 1)), K=1, stride=2, nl='tanh', size=(2, 2), model='conv', infl=None, weighted=True, rnn=False, N=1):
    """every block integrates the equations of the requested model, nonlinearity and options"""
    w = ctx.tensor('w', (), pos=True) if weighted else None
    kwargs = dict(parameter_weight=w) if weighted else {}
    if infl:
        kwargs['inflation_factor'] = infl
    if rnn:
        kwargs['use_rnn_mode'] = True
    seen = []

    def evaluate(n, func, x0, t):
        if not live:
            return
        m = func
        P = None
        for j in range(2):
            y = ctx.tensor('z%d.%d' % (n, j), tuple(x0.shape), requires_grad=True)
            dy = func(t[0] if j == 0 else ctx.tensor('t%d' % n, (), pos=True), y)
            if P is None or not rnn:
                s, c, _ = m.disassemble_tensor(y)
                P = cm.optimal_params(model, m, joined(s, 1), joined(c, 1), nl, lambda o, k: w)
            check_derivative(ctx, 'block {} evaluation {}'.format(n, j), model, m, y, dy, P, nl)
        seen.append(n)

    live = False
    S = cm.Solver(ctx, evaluate=evaluate, trajectory=lambda n, f, x0, t: torch.zeros((len(t),) + tuple(x0.shape)))
    net = network(ctx, S, channels, blocks, particles, K, 2, stride, nl, 1, model, kwargs or None, None)
    net(torch.zeros((2, 1) + tuple(size)))
    live, S.calls = True, []
    net(ctx.tensor('x', (N, 1) + tuple(size)))
    ctx.check('every block evaluated', seen == list(range(sum(blocks))))


def initialised(ctx, zero, model=None, channels=(1, 2), blocks=(1, 2), particles=((2, 2), (1, 1)), K=2):
    """the particles and costates come from the initialisers given for them"""
    import neuro_shooting.parameter_initialization as pi
    ctx.seed_random(5)
    C = pi.ConvolutionEvolutionParameterInitializer
    off, on = C(only_random_initialization=True, random_initialization_magnitude=0.0), C(only_random_initialization=True, random_initialization_magnitude=0.5)
    S = cm.Solver(ctx, trajectory=lambda n, f, x0, t: torch.stack([x0] * len(t)))
    net = network(ctx, S, channels, blocks, particles, K, 2, 2, 'relu', 1, model, None, (off, on) if zero == 'state' else (on, off))
    net(torch.zeros(1, 1, 2, 2))
    for i, b in enumerate(blocks_of(net)):
        own = {n: p for n, p in cm.own(b).items() if n in ('q1', 'q2', 'p_q1', 'p_q2')}
        for n, p in own.items():
            if n.startswith('p_') == (zero == 'costate'):
                ctx.check_eq('block {} {} is zero'.format(i, n), p, torch.zeros(tuple(p.shape)))
        drawn = [p for n, p in own.items() if n.startswith('p_') != (zero == 'costate')]
        if drawn:
            ctx.check_own_draws('block %d is drawn' % i, drawn)


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    yield Case('two', composed, '2 layers of 1 block, 2x2 image', lim)
    yield Case('blocks', composed, '2 layers of 2 and 2 blocks, 4x2 image, 2 particles', lim, blocks=(2, 2), size=(4, 2), K=2, particles=((3, 3), (2, 2)))
    yield Case('single', composed, '1 layer of 1 block', lim, channels=(2,), blocks=(1,), particles=((2, 2),), size=(1, 2))
    yield Case('single-two', composed, '1 layer of 2 blocks', lim, channels=(1,), blocks=(2,), particles=((1, 2),))
    yield Case('single-many', composed, '1 layer of 5 blocks', lim, channels=(1,), blocks=(5,), particles=((1, 2),))
    yield Case('later-many', composed, '2 layers of 1 and 4 blocks', lim, blocks=(1, 4))
    yield Case('many-layers', composed, '5 layers', lim, channels=(1, 2, 3, 4, 5), blocks=(1, 1, 2, 1, 1), particles=((1, 1),) * 5, size=(1, 1), stride=1)
    yield Case('three', composed, '3 layers, 5x5 image, 2 image channels', lim, channels=(1, 2, 4), blocks=(1, 2, 1), particles=((3, 3), (2, 2), (1, 1)), size=(5, 5), image=2)
    yield Case('stride3', composed, 'stride 3, 6x3 image', lim, size=(6, 3), stride=3, particles=((3, 3), (1, 1)), nl='relu')
    yield Case('training', composed, 'batch statistics', lim, training=True, N=2)
    yield Case('repeated', composed, '2 passes with different batches', lim, passes=2, blocks=(1, 2))
    yield Case('classes', composed, '3 classes, sigmoid', lim, classes=3, nl='sigmoid', channels=(2, 3), particles=((2, 2), (2, 2)))
    yield Case('gradient', composed, 'gradients with affine flows', lim, affine=True, gradient=True, blocks=(2, 1))
    yield Case('gradient-single', composed, 'gradients, single block', lim, affine=True, gradient=True, channels=(1,), blocks=(1,), particles=((1, 1),), size=(1, 1))
    yield Case('gradient-training', composed, 'gradients with batch statistics', lim, affine=True, gradient=True, training=True, N=2)
    yield Case('updown', composed, 'inflating model with an argument', lim, model='updownconv', kwargs=dict(inflation_factor=2))
    yield Case('equations', equations, 'model equations in 2 layers of 2 blocks', lim)
    yield Case('equations-relu', equations, 'model equations, relu, no options', lim, nl='relu', weighted=False)
    yield Case('equations-updown', equations, 'inflating model with two options', lim, model='updownconv', infl=2, channels=(1, 2), blocks=(1, 2))
    yield Case('equations-norm', equations, 'normalised model', lim, model='convbatch', nl='sigmoid', blocks=(1, 1), size=(2, 4), particles=((1, 2), (1, 2)))
    yield Case('equations-rnn', equations, 'RNN mode as option', lim, rnn=True)
    for zero in ('state', 'costate'):
        for model in (None, 'updownconv'):
            yield Case('initialised-{}-{}'.format(zero, model), initialised, 'given initialisers', lim, zero=zero, model=model)
    if big:
        yield Case('big', composed, '3 layers of 2 blocks, 4x4 image, 2 particles, 2 samples', lim, channels=(2, 3, 5), blocks=(2, 2, 2), particles=((4, 4), (3, 3), (2, 2)), size=(4, 4), K=2, N=2)
        yield Case('many-samples', composed, '3 samples, 2x1 final image', lim, size=(4, 2), N=3, channels=(1, 2))
        yield Case('gradient-three', composed, 'gradients through 3 layers', lim, affine=True, gradient=True, channels=(1, 2, 3), blocks=(1, 2, 1), particles=((3, 3), (2, 2), (1, 1)), size=(4, 4))
        yield Case('updown-gradient', composed, 'gradients, inflating model', lim, affine=True, gradient=True, model='updownconv', kwargs=dict(inflation_factor=2))
