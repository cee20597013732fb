"""C27: the discrete comparison networks apply their residual layers in order."""
import torch
import torch.nn.functional as F
from symtorch.runner import Case
from checks import common as cm

nets = cm.demo('simple_discrete_neural_networks')

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the discrete networks run with symbolic inputs and weights; outputs and gradients must be those of the stated recursion written out with the weights the network registers.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.KINK, cm.RANDOM]
OUTSIDE = 'more layers, samples, larger images and inflation factors than listed'


def layers(net, kind):
    return [m for m in net.modules() if isinstance(m, kind)]


def lin(x, l):
    y = torch.einsum('...i,oi->...o', x, l.weight)
    return y if l.bias is None else y + l.bias


def conv(x, l):
    return F.conv2d(F.pad(x, (1, 1, 1, 1)), l.weight, l.bias)


def gradients(ctx, net, ins, got, want):
    ps = [p for p in net.parameters()] + list(ins)
    w = [ctx.tensor('w%d' % i, tuple(g.shape)) for i, g in enumerate(got)]
    tot = lambda o: sum((a * b).sum() for a, b in zip(o, w))
    for i, (a, b) in enumerate(zip(cm.grads(tot(got), ps), cm.grads(tot(want), ps))):
        ctx.check_eq('gradient %d' % i, a, b)


def simple(ctx, n, N=2, gradient=True):
    net = nets.ResNet(nr_of_layers=n)
    cm.symbolic_parameters(ctx, net, 'p')
    x = ctx.tensor('x', (N, 1, 1), requires_grad=True)
    ls = layers(net, torch.nn.Linear)
    ctx.check('layers', len(ls) == n and len(list(net.parameters())) == 2 * n)
    y = x
    for l in ls:
        y = y + lin(torch.relu(y), l)
    got = net(x)
    ctx.check_eq('output', got, y)
    if gradient:
        gradients(ctx, net, [x], [got], [y])


def updown(ctx, n, infl, N=1, gradient=True):
    net = nets.ResNetUpDown(nr_of_layers=n, inflation_factor=infl)
    cm.symbolic_parameters(ctx, net, 'p')
    x = ctx.tensor('x', (N, 1, 1), requires_grad=True)
    ls = layers(net, torch.nn.Linear)
    ctx.check('layers', len(ls) == 2 * n and all(ls[2 * i].weight.shape == (infl, 1) and ls[2 * i + 1].weight.shape == (1, infl) for i in range(n)))
    y = x
    for i in range(n):
        y = y + lin(torch.relu(lin(torch.relu(y), ls[2 * i])), ls[2 * i + 1])
    got = net(x)
    ctx.check_eq('output', got, y)
    if gradient:
        gradients(ctx, net, [x], [got], [y])


def double(ctx, n, infl, rnn, N=1, gradient=True):
    cls = nets.DoubleResNetUpDownRNN if rnn else nets.DoubleResNetUpDown
    net = cls(nr_of_layers=n, inflation_factor=infl)
    cm.symbolic_parameters(ctx, net, 'p')
    x1, x2 = ctx.tensor('x1', (N, 1, 1), requires_grad=True), ctx.tensor('x2', (N, 1, infl), requires_grad=True)
    ls = layers(net, torch.nn.Linear)
    ctx.check('layers', len(ls) == (2 if rnn else 2 * n) and len(list(net.parameters())) == 3 * (1 if rnn else n))
    a, b = x1, x2
    for i in range(n):
        l1, l2 = (ls[0], ls[1]) if rnn else (ls[2 * i], ls[2 * i + 1])
        ctx.check('only the first has an offset', l1.bias is not None and l2.bias is None)
        a = a + lin(torch.relu(b), l1)
        b = b + lin(torch.relu(a), l2)
    got = net((x1, x2))
    ctx.check('two outputs', len(got) == 2)
    ctx.check_eq('first output', got[0], a)
    ctx.check_eq('second output', got[1], b)
    if gradient:
        gradients(ctx, net, [x1, x2], got, [a, b])


def recurrent(ctx, n, infl, N=1, gradient=True):
    net = nets.ResNetRNN(nr_of_layers=n, inflation_factor=infl)
    cm.symbolic_parameters(ctx, net, 'p')
    x = ctx.tensor('x', (N, 1, 1), requires_grad=True)
    up, = [l for l in layers(net, torch.nn.Linear) if l.weight.shape == (infl, 1)]
    down, = [l for l in layers(net, torch.nn.Linear) if l.weight.shape == (1, infl)]
    y = x
    for i in range(n):
        y = y + lin(torch.relu(lin(y, up)), down) / n
    got = net(x)
    ctx.check_eq('output', got, y)
    if gradient:
        gradients(ctx, net, [x], [got], [y])


def ode(ctx, N=2):
    net = nets.ODESimpleFunc()
    l, = layers(net, torch.nn.Linear)
    ctx.check_eq('offset starts at zero', l.bias, torch.zeros(1))
    cm.symbolic_parameters(ctx, net, 'p')
    y = ctx.tensor('y', (N, 1, 1))
    for t in ('t0', 't1'):
        ctx.check_eq('derivative', net(ctx.scalar(t), y), torch.tanh(lin(y, l)))


def images(ctx, n, infl, ch, rec, N=1, size=(2, 2), gradient=False):
    torch.manual_seed(0)
    cls = nets.MyCNNResRecNet if rec else nets.MyCNNResNet
    net = cls(nr_layers=n, inflation_factor=infl, in_channels=ch)
    x = ctx.tensor('x', (N, 1) + tuple(size), requires_grad=True)
    cs = layers(net, torch.nn.Conv2d)
    first, = [c for c in cs if c.in_channels == 1 and c is net.conv0]
    rest = [c for c in cs if c is not first]
    ctx.check('layers', len(rest) == (2 if rec else 2 * n))
    for i, c in enumerate(cs):
        # part of the weights is symbolic
        with torch.no_grad():
            c.weight.copy_(((torch.arange(c.weight.numel()) % (5 + i) - 2.0) / 4).reshape(c.weight.shape))
        ctx.set_values(c.bias, 'b%d' % i)
    l = net.last_linear
    cm.symbolic_parameters(ctx, l, 'l')
    y = conv(x, first)
    for i in range(n):
        up, down = rest[:2] if rec else rest[2 * i:2 * i + 2]
        ctx.check('channels', up.weight.shape == (ch * infl, ch, 3, 3) and down.weight.shape == (ch, ch * infl, 3, 3))
        y = y + conv(torch.relu(conv(y, up)), down) / n
    want = lin(y.amax(dim=(2, 3)), l)
    got = net(x)
    ctx.check('ten scores', tuple(got.shape) == (N, 10))
    ctx.check_eq('scores', got, want)


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for n in (1, 2, 3) + ((4,) if big else ()):
        g = n < 3
        yield Case('simple-%d' % n, simple, '%d layers' % n, lim, n=n, gradient=g)
        yield Case('updown-%d' % n, updown, '%d layers, inflation 2' % n, lim, n=n, infl=2, gradient=g)
        yield Case('recurrent-%d' % n, recurrent, '%d layers, inflation 2' % n, lim, n=n, infl=2, gradient=g)
        for rnn in (False, True):
            yield Case('double-{}-{}'.format(n, rnn), double, '%d layers, inflation 2' % n, lim, n=n, infl=2, rnn=rnn, gradient=g)
    for n in (12, 25):
        yield Case('simple-many-%d' % n, simple, '%d layers' % n, lim, n=n, N=1, gradient=False)
        yield Case('updown-many-%d' % n, updown, '%d layers, inflation 1' % n, lim, n=n, infl=1, gradient=False)
        yield Case('recurrent-many-%d' % n, recurrent, '%d layers, inflation 2' % n, lim, n=n, infl=2, gradient=False)
        for rnn in (False, True):
            yield Case('double-many-{}-{}'.format(n, rnn), double, '%d layers, inflation 1' % n, lim, n=n, infl=1, rnn=rnn, gradient=False)
    for rec in (False, True):
        yield Case('images-many-%s' % rec, images, '12 layers, 1 channel, 1x1', lim, n=12, infl=1, ch=1, rec=rec, size=(1, 1))
    yield Case('updown-infl', updown, 'inflation 3', lim, n=1, infl=3)
    yield Case('recurrent-infl', recurrent, 'inflation 3', lim, n=2, infl=3)
    yield Case('double-infl', double, 'inflation 3, 2 samples', lim, n=1, infl=3, rnn=False, N=2)
    yield Case('ode', ode, '2 samples', lim)
    for rec in (False, True):
        yield Case('images-%s' % rec, images, '2 layers, 1 channel, 2x2', lim, n=2, infl=2, ch=1, rec=rec)
        yield Case('images-channels-%s' % rec, images, '1 layer, 2 channels, 2x1, 2 samples', lim, n=1, infl=2, ch=2, rec=rec, N=2, size=(2, 1))
        yield Case('images-three-%s' % rec, images, '3 layers', lim, n=3, infl=1, ch=2, rec=rec, size=(1, 2))
