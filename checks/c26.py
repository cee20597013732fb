"""C26: the autoencoders decode the latent trajectory at the right times, sample by sample."""
import types
import numpy as np
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.c25 import data_of

ae, rot = cm.demo('autoencoder'), cm.demo('rot')

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the autoencoders of the image experiments run with symbolic images, weights, batch statistics, a real block and a stand-in solver returning an arbitrary trajectory; the random choice of time '
               'points is replaced by an arbitrary permutation, every one of which is explored. Start of the latent trajectory, selected times and decoded images must be the stated ones; encoder and decoder are the real layers, or small stand-ins for them.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM, cm.KINK]
OUTSIDE = 'more times, samples, filters and latent dimensions than listed; the training loop'


class Encoder(torch.nn.Module):
    """a stand-in: some of the pixels"""

    def __init__(self, h):
        super().__init__()
        self.h = h

    def forward(self, x):
        return x.reshape(x.shape[0], -1)[:, 100:100 + self.h]


class Decoder(torch.nn.Module):
    """a stand-in: part of its input as part of the image; `mixed`: and normalises over the batch"""

    def __init__(self, mixed):
        super().__init__()
        self.mixed = mixed

    def forward(self, s):
        if self.mixed:
            s = s - s.mean(dim=0, keepdim=True)
        return torch.cat([s[:, :8], torch.zeros(s.shape[0], 776)], dim=1).reshape(s.shape[0], 1, 28, 28)


def machine(ctx, cls, key, T, dim, K, n_filt, standin, mixed, N, gains=False, **kw):
    torch.manual_seed(0)
    rec = {}

    def trajectory(n, func, x0, t):
        # the data part is small: the particles stay where they are
        s, c, d = b.shooting_integrand.disassemble_tensor(x0)
        y = torch.stack([x0] * len(t)) if not gains else torch.stack([x0 * ctx.tensor('g%d' % i, ()) for i in range(len(t))])
        if not gains:
            y = ctx.tensor('y%d' % n, tuple(y.shape))
        return y

    S = cm.Solver(ctx, trajectory=trajectory)
    b, m = cm.make_block(ctx, key, S, 'tanh', dim, K, name='simple')
    net = getattr(ae, cls)(n_filt=n_filt, shooting_dim=dim, T=T, **kw)
    net.set_shooting_block(b)
    if standin:
        net.encoder = Encoder(n_filt * 64)
        net.decoder = Decoder(mixed)
    else:
        if standin is False:
            for n, p in list(net.named_parameters()) + list(net.named_buffers()):
                if n.startswith('blk') or not p.dtype.is_floating_point:
                    continue
                with torch.no_grad():
                    p.copy_(((torch.arange(p.numel()) % 7 - 3.0) / 8).reshape(p.shape) + (2.0 if 'var' in n else 0.0))
    for l in (net.fc1, net.fc2):
        with torch.no_grad():
            l.weight.copy_(((torch.arange(l.weight.numel()) % 5 - 2.0) / 4).reshape(l.weight.shape))
        if standin:
            ctx.set_values(l.bias, 'b.%d' % l.bias.numel())
    dt = ctx.tensor('dt', (T,), pos=True)
    t = torch.cumsum(dt, dim=0) - dt[0]
    net.set_integration_time_vector(t)
    return net, S, b, m, t


def image(ctx, name, N, channels, plain):
    """an image with some symbolic pixels"""
    x = ((torch.arange(N * channels * 784) % 11 - 5.0) / 8).reshape(N, channels, 28, 28)
    if plain:
        return torch.cat([x.reshape(N, -1)[:, :100], ctx.tensor(name, (N, 3)), x.reshape(N, -1)[:, 103:]], dim=1).reshape(N, channels, 28, 28)
    return x + torch.nn.functional.pad(ctx.tensor(name, (N, channels, 1, 2)), (13, 13, 14, 13))


def latent(ctx, net, S, m, x, t, T, N, dim):
    """what the block is asked to integrate, and the latent trajectory (samples x times x dimensions)"""
    ctx.check('one integration', len(S.calls) == 1)
    c = S.calls[0]
    ctx.check_eq('integration times', c['t'], t)
    enc = net.encoder(x).reshape(N, -1)
    start = torch.einsum('nh,dh->nd', enc, net.fc1.weight) + net.fc1.bias
    ctx.check_eq('the latent trajectory starts at the encoding', data_of(m, c['x0']).reshape(N, dim), start)
    return torch.stack([data_of(m, c['y'][j]).reshape(N, dim) for j in range(T)], dim=1)


def decoded(net, z, N, n):
    """of N x n latent values"""
    rows = z.reshape(N * n, -1)
    return net.decoder(torch.einsum('rd,hd->rh', rows, net.fc2.weight) + net.fc2.bias).reshape(N, n, 1, 28, 28)


def plain(ctx, T=3, N=2, dim=2, K=2, key='simple', standin=True, mixed=True, training=False, n_filt=1, cls='ShootingAE', channels=3):
    net, S, b, m, t = machine(ctx, cls, key, T, dim, K, n_filt, standin, mixed, N, gains=not standin)
    net.train(training)
    x = image(ctx, 'x', N, channels, standin)
    if cls == 'ShootingAE':
        out, img = net(x)
    else:
        out, none, img = net(x, use_mask=False)
        ctx.check('no selection', none is None)
    ctx.check('shapes', tuple(out.shape) == (N, T, dim) and tuple(img.shape) == (N, T, 1, 28, 28))
    z = latent(ctx, net, S, m, x, t, T, N, dim)
    ctx.check_eq('latent trajectory', out, z)
    ctx.check_eq('decoded images', img, decoded(net, z, N, T))


def masked(ctx, T=4, N=1, dim=2, K=1, n_skip=1, i_eval=1, key='simple', standin=True, mixed=True, training=True, n_filt=1):
    net, S, b, m, t = machine(ctx, 'ShootingAEMasked', key, T, dim, K, n_filt, standin, mixed, N, gains=not standin, n_skip=n_skip, i_eval=i_eval)
    net.train(training)
    x = image(ctx, 'x', N, 1, standin)
    with cm.Draws(ctx):
        out, idx, img = net(x, use_mask=True)
    n = T - n_skip - 1
    ctx.check('shapes', tuple(out.shape) == (N, n, dim) and tuple(idx.shape) == (N, n, dim) and tuple(img.shape) == (N, n, 1, 28, 28))
    for i in range(N):
        sel = [[int(v) for v in r] for r in idx[i]]
        ctx.check('one time for all dimensions', all(len(set(r)) == 1 for r in sel))
        sel = [r[0] for r in sel]
        ctx.check('increasing times, not the evaluated one', sel == sorted(set(sel)) and all(0 <= v < T and v != i_eval for v in sel))
    z = latent(ctx, net, S, m, x, t, T, N, dim)
    z = torch.stack([torch.stack([z[i, int(idx[i, j, 0])] for j in range(n)]) for i in range(N)])
    ctx.check_eq('latent values at the selected times', out, z)
    ctx.check_eq('decoded images', img, decoded(net, z, N, n))


def reshaped(ctx, N, c, w):
    x = ctx.tensor('x', (N, c, w, w))
    flat = ae.Flatten()(x)
    ctx.check_eq('flattened', flat, torch.stack([x[n].reshape(-1) for n in range(N)]))
    ctx.check_eq('and back', ae.UnFlatten(w)(flat), x)


def evaluated(ctx, sizes, T, i_eval, w=2, channels=1):
    """one squared error per sample, of the evaluated time"""
    loader = [ctx.tensor('x%d' % i, (n, T, channels, w, w)) for i, n in enumerate(sizes)]
    outs = [ctx.tensor('r%d' % i, tuple(x.shape)) for i, x in enumerate(loader)]
    seen = []

    class Model(torch.nn.Module):
        def forward(self, x, use_mask):
            seen.append(x)
            ctx.check('all times, evaluation mode', use_mask is False and not self.training)
            return None, None, outs[len(seen) - 1]

    errors, total = rot.evaluate(types.SimpleNamespace(i_eval=i_eval), Model(), loader, 'cpu')
    ctx.check('samples', total == sum(sizes) and len(errors) == total and len(seen) == len(sizes))
    k = 0
    for x, r, s in zip(loader, outs, seen):
        ctx.check_eq('first images are given', s.reshape(x.shape[0], channels, w, w), x[:, 0])
        for i in range(x.shape[0]):
            ctx.check_eq('error of sample %d' % k, torch.as_tensor(errors[k]) if not ctx.symbolic else errors[k], ((r[i, i_eval] - x[i, i_eval]) ** 2).sum() / (w * w))
            k += 1


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for cls, ch in (('ShootingAE', 3), ('ShootingAEMasked', 1)):
        for N, T, dim in ((2, 3, 2), (1, 3, 2), (3, 2, 1), (1, 2, 1), (2, 1, 2)):
            yield Case('{}-{}-{}-{}'.format(cls, N, T, dim), plain, '{} samples, {} times, {} latent dimensions'.format(N, T, dim), lim, cls=cls, channels=ch, N=N, T=T, dim=dim)
        yield Case(cls + '-updown', plain, 'second state', lim, cls=cls, channels=ch, key='updown')
    for T, N, dim, skip, ev in ((4, 1, 2, 1, 1), (4, 2, 2, 2, 0), (3, 2, 1, 1, 2), (4, 1, 1, 0, 3), (5, 1, 2, 1, 2)) + (((4, 2, 2, 1, 1), (5, 1, 2, 3, 2)) if big else ()):
        yield Case('masked-{}-{}-{}-{}-{}'.format(T, N, dim, skip, ev), masked, '{} times, {} samples, {} latent dimensions, {} skipped'.format(T, N, dim, skip), lim, T=T, N=N, dim=dim, n_skip=skip, i_eval=ev)
    for N, c, w in ((2, 3, 2), (1, 1, 3), (3, 2, 1)):
        yield Case('reshaped-{}-{}-{}'.format(N, c, w), reshaped, '{} samples'.format(N), lim, N=N, c=c, w=w)
    for sizes, T, ev in (((2, 2), 3, 1), ((2, 1), 3, 2), ((1,), 2, 0), ((1, 1), 1, 0)):
        yield Case('evaluated-{}-{}'.format('-'.join(map(str, sizes)), T), evaluated, 'batches of {} samples, {} times'.format(sizes, T), lim, sizes=sizes, T=T, i_eval=ev)
    yield Case('real', plain, 'real encoder and decoder, 2 symbolic pixels, 1 sample, 1 time', lim, N=1, T=1, dim=1, standin=False, K=1, cls='ShootingAEMasked', channels=1)
    if big:
        yield Case('real-eval', plain, 'real encoder and decoder, 6 symbolic pixels, 2 samples, 2 times', lim, N=2, T=2, dim=2, standin=False, K=1)
        yield Case('real-masked', masked, 'real encoder and decoder with batch statistics', lim, N=2, T=3, dim=2, standin=False, K=1)
