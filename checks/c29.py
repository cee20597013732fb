"""C29: the experiments' data sets and losses are the stated ones."""
import random
import types
import numpy as np
import torch
from symtorch.runner import Case
from checks import common as cm

sfm, du, balls = cm.demo('simple_functional_mapping_example'), cm.demo('utils'), cm.demo('balls')

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the functions creating the experiments\' data and losses run with symbolic random draws, ranges, samples, predictions and weights; drawn indices are arbitrary (every one is explored). '
               'Samples, targets, errors and losses must be the stated ones, with real blocks on a stand-in solver returning arbitrary trajectories.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM]
OUTSIDE = 'more samples, dimensions and times than listed; data read from files; the training loops; plotting'


def f(x, kind):
    return x * x * x if kind == 'cubic' else x * x + 3 / (1 + x * x)


def mapping(ctx, kind, uniform, n):
    """inputs lie in [-xmax, xmax], outputs are the function's values"""
    ctx.seed_random(0)
    top = ctx.scalar('top', pos=True)
    old, k = torch.rand, [0]

    def rand(*size, **kw):
        size = tuple(size[0]) if len(size) == 1 and not isinstance(size[0], int) else tuple(size)
        u = ctx.tensor('u%d' % k[0], size, sample=[0.3 + 0.1 * (i % 5) for i in range(int(np.prod(size)))])
        ctx.assume(((u >= 0) & (u < 1)).all())
        k[0] += 1
        return u

    torch.rand = rand
    try:
        ds = sfm.FunctionDataset(nr_of_samples=n, uniform_sample=uniform, max_x=top, fcn_type=kind)
    finally:
        torch.rand = old
    for i in range(n):
        ctx.bound_draws(ds[i]['input'])
    ctx.check('number of samples', len(ds) == n)
    xs = []
    for i in list(range(n)) + [torch.tensor(n - 1)]:
        s = ds[i]
        ctx.check('entries', sorted(s) == ['input', 'output'] and tuple(s['input'].shape) == (1, 1) and tuple(s['output'].shape) == (1, 1))
        x, y = s['input'].reshape(()), s['output'].reshape(())
        ctx.check_eq('output of %d' % int(i), y, f(x, kind))
        ctx.check('range of %d' % int(i), (x >= -top) & (x <= top))
        if uniform:
            want = top * 0 if n == 1 else -top + 2 * top * int(i) / (n - 1)
            if n > 1:
                ctx.check_eq('uniform %d' % int(i), x, want)
        xs.append(x)
    ctx.check_eq('drawn once', xs[-1], xs[n - 1])
    again = [ds[i]['input'].reshape(()) for i in range(n)]
    for i in range(n):
        ctx.check_eq('kept %d' % i, again[i], xs[i])


class Net(torch.nn.Module):
    def __init__(self, ctx, shape, infl, double):
        super().__init__()
        self.ctx, self.seen, self.double = ctx, [], double
        self.out = ctx.tensor('net', shape), ctx.tensor('net2', tuple(shape[:-1]) + (shape[-1] * infl,))

    def forward(self, x=None, **kw):
        self.seen.append(x)
        return self.out if self.double else self.out[0]


def fitting(ctx, how, N=2, Fe=1, K=2, penalty=True, infl=2, key='updown'):
    x, y = ctx.tensor('x', (N, 1, Fe)), ctx.tensor('y', (N, 1, Fe))
    ws, wn = ctx.scalar('ws', pos=True), ctx.scalar('wn', pos=True)
    args = types.SimpleNamespace(use_neural_ode=how == 'ode', use_double_resnet=how == 'double', use_double_resnet_rnn=how == 'double_rnn', sim_weight=ws, norm_weight=wn, do_not_use_parameter_penalty_energy=not penalty)
    S = cm.Solver(ctx)
    b = m = net = func = None
    names = ('simple_resnet', 'inflation_factor')
    old = {k: sfm.__dict__[k] for k in names if k in sfm.__dict__}
    try:
        if how == 'shooting':
            S.evaluate = lambda i, g, x0, t: g(t[0], x0)
            b, m = cm.make_block(ctx, key, S, 'tanh', Fe, K, name='sblock')
        elif how != 'ode':
            sfm.simple_resnet = net = Net(ctx, (N, 1, Fe), infl, how.startswith('double'))
            sfm.inflation_factor = infl
        else:
            func = object()
        total, sim, nl, pen, pred = sfm.compute_loss(args=args, use_shooting=how == 'shooting', integrator=S, sblock=b, func=func, batch_in=x, batch_out=y)
    finally:
        for k in names:
            if k in old:
                setattr(sfm, k, old[k])
            elif hasattr(sfm, k):
                delattr(sfm, k)
    if how in ('shooting', 'ode'):
        ctx.check('one integration', len(S.calls) == 1)
        c = S.calls[0]
        ctx.check('from 0 to 1', len(c['t']) >= 2)
        ctx.check_eq('start time', c['t'][0], 0.0)
        ctx.check_eq('end time', c['t'][-1], 1.0)
    if how == 'shooting':
        ctx.check_eq('start', m.disassemble_tensor(c['x0'])[2]['sblock']['q1'], x)
        want = m.disassemble_tensor(c['y'][-1])[2]['sblock']['q1']
        ctx.check_eq('norm penalty', pen, b.get_norm_penalty())
    elif how == 'ode':
        ctx.check('field', c['func'] is func)
        ctx.check_eq('start', c['x0'], x)
        want = c['y'][-1]
    else:
        ctx.check('one prediction', len(net.seen) == 1)
        if net.double:
            ctx.check_eq('input', net.seen[0][0], x)
            ctx.check_eq('second input', net.seen[0][1], torch.zeros(N, 1, Fe * infl))
        else:
            ctx.check_eq('input', net.seen[0], x)
        want = net.out[0]
    ctx.check_eq('prediction', pred, want)
    d = want - y
    ctx.check_eq('similarity', sim, ws * (d * d).sum() / (N * Fe))
    if how == 'shooting' and penalty:
        ctx.check_eq('norm loss', nl, wn * pen)
        ctx.check_eq('loss', total.reshape(()), sim + wn * pen)
    else:
        ctx.check_eq('no norm loss', nl.reshape(()), 0.0)
        ctx.check_eq('loss', total.reshape(()), sim)


def circles(ctx, dim, inner, outer):
    """points of the two spheres, labelled, at the drawn radius in the drawn direction"""
    r = [ctx.scalar('r%d' % i, pos=True, sample=[0.3, 0.5, 1.0, 1.5][i]) for i in range(4)]
    ctx.assume(r[0] < r[1])
    ctx.assume(r[2] < r[3])
    us = []

    def draw():
        u = ctx.scalar('u%d' % len(us), sample=0.25)
        ctx.assume((u >= 0) & (u < 1))
        us.append(u)
        return u

    def one(*size, **kw):
        u = ctx.tensor('u%d' % len(us), (1,) * len(size), sample=[0.25])
        ctx.assume(((u >= 0) & (u < 1)).all())
        us.append(u.reshape(()))
        return u

    uniform = lambda a=0.0, b=1.0, size=None: a + (b - a) * draw()
    own = [(random, 'random', draw), (random, 'uniform', uniform), (np.random, 'random', lambda size=None: draw()),
           (np.random, 'rand', lambda: draw()), (np.random, 'uniform', uniform), (torch, 'rand', one)]
    if callable(getattr(du, 'random', None)):
        own.append((du, 'random', draw))

    dirs = []

    def randn(*size, **kw):
        size = tuple(size[0]) if len(size) == 1 and not isinstance(size[0], int) else tuple(size)
        v = ctx.tensor('v%d' % len(dirs), size)
        ctx.assume((v * v).sum() > 0.0001)
        dirs.append(v)
        return v

    own.append((torch, 'randn', randn))
    old = [(m, k, getattr(m, k)) for m, k, _ in own]
    try:
        for m, k, g in own:
            setattr(m, k, g)
        ds = du.ConcentricSphere(dim, (r[0], r[1]), (r[2], r[3]), inner, outer)
    finally:
        for m, k, g in old:
            setattr(m, k, g)
    ctx.check('number of points', len(ds) == inner + outer)
    ctx.check('one draw each', len(us) == len(dirs) == inner + outer)
    for i in range(inner + outer):
        x, y = ds[i]
        lo, hi = r[:2] if i < inner else r[2:]
        ctx.check('shapes', tuple(x.shape) == (dim,) and tuple(y.shape) == (1,))
        ctx.check_eq('target %d' % i, y, torch.ones(1) * (0.0 if i < inner else 1.0))
        n2 = (x * x).sum()
        rho = lo + (hi - lo) * us[i] ** (1.0 / dim)
        if ctx.proves_eq(n2, rho * rho):
            # the radius used at present; any other one has to be between the radii as well
            ctx.check('radius %d' % i, (rho >= lo) & (rho <= hi))
        else:
            ctx.check('radius %d' % i, (n2 >= lo * lo * 0.9999) & (n2 <= hi * hi * 1.0001))
        v = dirs[i]
        ctx.check('direction %d' % i, (x * v).sum() >= 0)
        for a in range(dim):
            for c in range(a):
                ctx.check_eq('direction {} {}{}'.format(i, a, c), x[a] * v[c], x[c] * v[a])


def drawn(ctx, targets, N):
    """N points of either class"""

    data = ctx.tensor('x', (len(targets), 2))

    class Points(torch.utils.data.Dataset):
        def __init__(self):
            self.targets = [torch.Tensor([v]) for v in targets]

        def __len__(self):
            return len(targets)

        def __getitem__(self, i):
            return data[int(i)], self.targets[int(i)]

    with cm.Draws(ctx):
        sub = du.sample(Points(), N)
    ctx.check('number', len(sub) == 2 * N)
    got = [sub[i] for i in range(2 * N)]
    idx = [int(i) for i in sub.indices]
    ctx.check('as many of either class', sum(int(y) for _, y in got) == N)
    for i, (x, y) in zip(idx, got):
        ctx.check('label', int(y) == targets[i])
        ctx.check_eq('point', x, data[i])


def stacked(ctx, sizes):
    loader = [(ctx.tensor('x%d' % i, (n, 2)), ctx.tensor('y%d' % i, (n, 1))) for i, n in enumerate(sizes)]
    X, y = du.dataset_to_numpy(loader)
    ctx.check('shapes', X.shape == (sum(sizes), 2) and y.shape == (sum(sizes), 1))
    k = 0
    for a, b in loader:
        for i in range(len(a)):
            for j in range(2):
                ctx.check_eq('point', X[k, j], a[i, j])
            ctx.check_eq('target', y[k, 0], b[i, 0])
            k += 1


def ahead(ctx, sizes, ahead, T=20, w=2):
    """errors per sample and time ahead"""
    loader = [(ctx.tensor('x%d' % i, (n, T + 1, 1, w, 2)),) for i, n in enumerate(sizes)]
    outs = [ctx.tensor('r%d' % i, (n, T, 1, w, 2)) for i, n in enumerate(sizes)]
    seen = []

    class Model(torch.nn.Module):
        def forward(self, x):
            seen.append(x)
            ctx.check('evaluation mode', not self.training)
            return None, outs[len(seen) - 1]

    had = 'device' in vars(balls)
    balls.device = 'cpu'
    try:
        errors, R, V = balls.evaluate(types.SimpleNamespace(evaluate_ahead=ahead), Model(), loader)
    finally:
        if not had:
            del balls.device
    ctx.check('samples', tuple(errors.shape) == (sum(sizes), ahead) and len(R) == len(V) == len(sizes))
    k = 0
    for (x,), r, s in zip(loader, outs, seen):
        ctx.check_eq('first three images are given', s, x[:, 0:3, 0])
        for i in range(x.shape[0]):
            for j in range(ahead):
                d = r[i, 3 + j] - x[i, 3 + j]
                ctx.check_eq('error of sample {} at {}'.format(k, j), errors[k, j], (d * d).sum() / (2 * w))
            k += 1


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for kind in ('cubic', 'quadratic'):
        for uniform in (False, True):
            for n in (1, 2, 3, 5):
                yield Case('mapping-{}-{}-{}'.format(kind, uniform, n), mapping, '{} samples'.format(n), {}, kind=kind, uniform=uniform, n=n)
    for how in ('shooting', 'ode', 'plain', 'double', 'double_rnn'):
        yield Case('fitting-' + how, fitting, '2 samples', lim, how=how)
    yield Case('fitting-plainloss', fitting, 'no penalty', lim, how='shooting', penalty=False)
    yield Case('fitting-features', fitting, '2 features, 3 samples', lim, how='shooting', Fe=2, N=3, key='simple')
    yield Case('fitting-infl', fitting, 'inflation 3', lim, how='double', infl=3, N=1)
    for dim, i, o in ((1, 1, 1), (2, 1, 1), (2, 2, 1)) + (((2, 2, 2),) if big else ()):
        yield Case('circles-{}-{}-{}'.format(dim, i, o), circles, '{} dimensions, {}+{} points'.format(dim, i, o), {}, dim=dim, inner=i, outer=o)
    for t, N in (((0, 1), 1), ((0, 1, 1), 2), ((1, 0, 0, 1), 2), ((0, 0, 1, 1, 1), 1)):
        yield Case('drawn-{}-{}'.format(''.join(map(str, t)), N), drawn, '{} points, {} of each class'.format(len(t), N), lim, targets=t, N=N)
    for sizes in ((2, 1), (1,), (1, 2, 2)):
        yield Case('stacked-%s' % '-'.join(map(str, sizes)), stacked, 'batches of %s' % (sizes,), lim, sizes=sizes)
    for sizes, a in (((2, 1), 2), ((1,), 1), ((2,), 3)):
        yield Case('ahead-{}-{}'.format('-'.join(map(str, sizes)), a), ahead, 'batches of {}, {} ahead'.format(sizes, a), lim, sizes=sizes, ahead=a)
