"""C25: long-range predictions continue short integrations; training pieces come from the trajectory."""
import types
import numpy as np
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd

spiral = cm.demo('spiral')

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the functions of the spiral experiment run with symbolic trajectories, times, initial values, weights and an arbitrary drawn start index (every index is explored), and with real blocks whose solver is a '
               'stand-in returning arbitrary trajectories. Pieces, chunks, predictions, losses and what every chunk asks the solver to integrate must be the stated ones.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM]
OUTSIDE = 'longer trajectories, more samples and chunks than listed; chunks of fewer than two times; plotting and the training loop'


def trajectory(ctx, n, indices=None):
    d = {'y': ctx.tensor('y', (n, 1, 2)), 't': ctx.tensor('t', (n,)), 'y0': ctx.tensor('y0', (1, 2))}
    if indices is not None:
        d['uniform_sample_indices'] = np.array(indices, dtype=np.int64)
    return d


def pieces(ctx, n, batch_time, batch_size, by_distance, through='batch'):
    """training pieces are consecutive parts of the trajectory"""
    last = n - batch_time
    d = trajectory(ctx, n, [i for i in range(last) for _ in range(1 + i % 2)] if by_distance else None)
    y, t = d['y'].clone(), d['t'].clone()
    with cm.Draws(ctx) as r:
        if through == 'batch':
            y0, tt, yy = spiral.get_batch(data_dict=d, batch_size=batch_size, batch_time=batch_time, distance_based_sampling=by_distance)
        else:
            args = types.SimpleNamespace(validate_with_long_range=False)
            ds = spiral.FunctionDataset(args=args, data_dict=d, nr_of_samples=batch_size, batch_time=batch_time, distance_based_sampling=by_distance, online_mode=through == 'online')
            ctx.check('number of samples', len(ds) == batch_size)
            got = [ds[i] for i in range(batch_size)]
            if through == 'stored':
                got += [ds[torch.tensor(batch_size - 1)]]
                ctx.check_eq('samples are drawn once', got[-1]['y'], got[-2]['y'])
            y0 = torch.stack([g['y0'] for g in got])
            yy = torch.stack([g['y'] for g in got], dim=1)
            tt = ds.t
    m = batch_size + (through == 'stored')
    ctx.check('shapes', tuple(y0.shape) == (m, 1, 2) and tuple(yy.shape) == (batch_time, m, 1, 2))
    ctx.check('one draw per piece', len(r.offered) == batch_size)
    if by_distance:
        ctx.check('starts are offered as often as listed', all(v in (None, len(d['uniform_sample_indices'])) for v in r.offered))
    ctx.check_eq('times', tt, t[:batch_time])
    starts = sorted(set(d['uniform_sample_indices'].tolist())) if by_distance else range(n - batch_time + 1)
    for k in range(m):
        ok = None
        for s in starts:
            e = (y0[k] == y[s]).all()
            for i in range(batch_time):
                e = e & (yy[i, k] == y[s + i]).all()
            ok = e if ok is None else ok | e
        ctx.check('piece %d is a part of the trajectory' % k, ok)
    ctx.check_eq('trajectory unchanged', d['y'], y)


def whole(ctx, n):
    """for long-range validation the data set is the whole trajectory"""
    d = trajectory(ctx, n)
    args = types.SimpleNamespace(validate_with_long_range=True)
    ds = spiral.FunctionDataset(args=args, data_dict=d, nr_of_samples=1, batch_time=2, validation_mode=True)
    got = ds[0]
    ctx.check_eq('initial value', got['y0'], d['y0'])
    ctx.check_eq('times', ds.t, d['t'])
    ctx.check_eq('trajectory', got['y'], d['y'])


def selection(ctx, n, batch_time, ratio):
    """start indices are repeated in proportion to the distance to the next point, and leave room for a piece"""
    steps = ctx.tensor('d', (n - 1,), pos=True, sample=[1.0 + 0.4 * (i % 3) for i in range(n - 1)])
    sign = ctx.boolean('down')
    z = torch.cat([torch.zeros(1), torch.cumsum(-steps if sign else steps, dim=0)])
    y = torch.stack([z, torch.ones(n) * 3.0], dim=1).reshape(n, 1, 2)
    for i in range(n - 1):
        for j in range(n - 1):
            ctx.assume(steps[i] < ratio * steps[j])
    idx, dists = spiral.create_uniform_distance_selection_array({'y': y}, batch_time=batch_time)
    ctx.check_eq('distances', dists[:n - 1], steps)
    ctx.check_eq('distance of the last point', dists[n - 1], steps[-1])
    idx = [int(i) for i in idx]
    ctx.check('ordered', idx == sorted(idx))
    ctx.check('each start leaves room for a piece', set(idx) == set(range(n - batch_time)))
    for i in range(n - batch_time):
        r = idx.count(i)
        low = steps[:n - batch_time].min()
        ctx.check('repetitions of %d' % i, ((r - 0.5) * low <= steps[i]) & (steps[i] <= (r + 0.5) * low))


def chunks(ctx, n, size, zero):
    t = ctx.tensor('t', (n,))
    kw = {} if zero is None else dict(start_time_chunk_from_zero=zero)
    got = spiral.get_time_chunks(t=t, chunk_time=size, **kw)
    want = windows(n, size)
    ctx.check('number of chunks', len(got) == len(want))
    for i, (a, b) in enumerate(want):
        ctx.check_eq('chunk %d' % i, got[i], t[a:b] if zero is False else t[:b - a])


def windows(n, size):
    """index ranges covering 0..n-1, consecutive ones sharing one index"""
    if size <= 0:
        return [(0, n)]
    out, a = [], 0
    while True:
        b = min(a + size, n)
        out.append((a, b))
        if b == n:
            return out
        a = b - 1


def setting(ctx, key, Fe, K, nl='tanh', free=False):
    S = cm.Solver(ctx)
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, name='simple', block_kw=dict(use_particle_free_rnn_mode=True) if free else None)
    return S, b, m


def data_of(m, v):
    return m.disassemble_tensor(v)[2]['simple']['q1']


def expected(ctx, S, b, m, y0, t, size, zero, N):
    """checks what was integrated and returns the predictions that should result"""
    want = windows(len(t), size)
    ctx.check('one integration per chunk', len(S.calls) == len(want))
    pred = [None] * len(t)
    q, p = None, None
    for i, ((a, e), c) in enumerate(zip(want, S.calls)):
        times = t[a:e] if zero is False else t[:e - a]
        ctx.check_eq('times of chunk %d' % i, c['t'], times)
        s, co, d = m.disassemble_tensor(c['x0'])
        ctx.check_eq('chunk %d continues' % i, d['simple']['q1'], y0 if i == 0 else pred[a])
        if i > 0:
            for k in d['simple']:
                if k != 'q1':
                    ctx.check_eq('chunk {} {}'.format(i, k), d['simple'][k], torch.zeros(tuple(d['simple'][k].shape)))
        for j in range(a, e):
            pred[j] = m.disassemble_tensor(c['y'][j - a])[2]['simple']['q1']
    return torch.stack(pred)


def validation(ctx, n, size, key='updown', zero=None, N=1, Fe=1, K=2, long_range=True, free=False):
    S, b, m = setting(ctx, key, Fe, K, free=free)
    dt = ctx.tensor('dt', (n,), pos=True)
    t = torch.cumsum(dt, dim=0) - dt[0]
    y0 = ctx.tensor('y0', (N, 1, Fe))
    kw = {} if zero is None else dict(start_time_chunk_from_zero=zero)
    S.evaluate = lambda i, f, x0, tt: f(tt[0], x0)
    got, pen = spiral.compute_validation_data(shooting_block=b, t=t, y0=y0, validate_with_long_range=long_range, chunk_time=size, **kw)
    want = expected(ctx, S, b, m, y0, t, size if long_range else 0, zero if long_range else False, N)
    ctx.check_eq('predictions', got, want)
    # the penalty is that of the first integration
    calls = S.calls
    S.calls = []
    S.trajectory = lambda i, f, x0, tt: calls[0]['y']
    b.set_integration_time_vector(calls[0]['t'], suppress_warning=True)
    b(x=y0)
    ctx.check_eq('norm penalty', pen, b.get_norm_penalty())


def loss(ctx, norm, n=3, size=2, mode='train', penalty=True, key='simple', N=2, Fe=1, K=1):
    S, b, m = setting(ctx, key, Fe, K)
    dt = ctx.tensor('dt', (n,), pos=True)
    t = torch.cumsum(dt, dim=0) - dt[0]
    y0, y = ctx.tensor('y0', (N, 1, Fe)), ctx.tensor('y', (n, N, 1, Fe))
    S.evaluate = lambda i, f, x0, tt: f(tt[0], x0)
    ws, wn = ctx.scalar('ws', pos=True), ctx.scalar('wn', pos=True)
    args = types.SimpleNamespace(validate_with_long_range=mode != 'short', chunk_time=size, sim_norm=norm, sim_weight=ws, norm_weight=wn, do_not_use_parameter_penalty_energy=not penalty)
    kw = {} if mode == 'train' else dict(validation_mode=True)
    total, sim, nl, pen, pred = spiral.compute_loss(args=args, batch_y0=y0, batch_t=t, batch_y=y, shooting_block=b, **kw)
    long_range = mode == 'long'
    want = expected(ctx, S, b, m, y0, t, size if long_range else 0, None if long_range else False, N)
    ctx.check_eq('predictions', pred, want)
    diff = want - y
    if norm == 'l1':
        dist = diff.abs().sum() / diff.numel()
    else:
        dist = torch.sqrt((diff ** 2).sum(dim=3)).sum() / (n * N)
    ctx.check_eq('similarity', sim, ws * dist)
    calls = S.calls
    S.calls = []
    S.trajectory = lambda i, f, x0, tt: calls[0]['y']
    b.set_integration_time_vector(calls[0]['t'], suppress_warning=True)
    b(x=y0)
    ctx.check_eq('penalty', pen, b.get_norm_penalty())
    ctx.check_eq('weighted penalty', nl.reshape(()), (wn * b.get_norm_penalty()).reshape(()) if penalty else torch.zeros(()))
    ctx.check_eq('loss', total.reshape(()), sim + nl.reshape(()))


def system(ctx, linear, N=2):
    """the simulated system"""
    A, y = ctx.tensor('A', (2, 2)), ctx.tensor('y', (N, 2))
    f = spiral.DiffEqRHS(A=A, linear=linear)
    got = f(ctx.scalar('t'), y)
    v = y if linear else y * y * y
    ctx.check_eq('derivative', got, torch.einsum('nd,de->ne', v, A))


def simulated(ctx, n, batch_time, linear):
    """the data is the solution of the simulated system at equally spaced times"""
    S = cm.Solver(ctx, trajectory=lambda k, f, x0, t: torch.stack([x0 * (1 + 0.2 * i) for i in range(len(t))]) + 0 * ctx.tensor('y', (len(t),) + tuple(x0.shape)))
    d = spiral.generate_data(S, n, batch_time, linear=linear) if linear else spiral.generate_data(integrator=S, data_size=n, batch_time=batch_time)
    ctx.check('one integration', len(S.calls) == 1)
    c = S.calls[0]
    ctx.check_eq('times', c['t'], torch.arange(n) * (10.0 / (n - 1)))
    ctx.check_eq('start', c['x0'], torch.tensor([[2.0, 0.0]]))
    z = ctx.tensor('z', (1, 2))
    v = z if linear else z * z * z
    A = torch.tensor([[-0.1, 2.0], [-2.0, -0.1]])
    ctx.check_eq('system', c['func'](ctx.scalar('t'), z), torch.einsum('nd,de->ne', v, A))
    ctx.check_eq('trajectory', d['y'], c['y'])
    ctx.check_eq('its times', d['t'], c['t'])
    ctx.check_eq('its start', d['y0'], c['x0'])
    idx, dists = spiral.create_uniform_distance_selection_array(d, batch_time=batch_time)
    ctx.check('selection', [int(i) for i in idx] == [int(i) for i in d['uniform_sample_indices']])
    ctx.check_eq('distances', d['dists'], dists)


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for n, bt, bs in ((5, 2, 1), (5, 3, 2), (4, 3, 2), (6, 4, 1)) + (((8, 3, 2), (6, 2, 3)) if big else ()):
        for by in (True, False):
            for through in ('batch', 'stored', 'online'):
                yield Case('pieces-{}-{}-{}-{}-{}'.format(n, bt, bs, by, through), pieces, '{} times, {} pieces of {}'.format(n, bs, bt), lim, n=n, batch_time=bt, batch_size=bs, by_distance=by, through=through)
    yield Case('whole', whole, '4 times', lim, n=4)
    for n, bt, r in ((4, 2, 2), (5, 3, 3)) + (((6, 3, 3), (5, 2, 4)) if big else ()):
        yield Case('selection-{}-{}'.format(n, bt), selection, '{} points, distances within a factor of {}'.format(n, r), {}, n=n, batch_time=bt, ratio=r)
    for n in range(1, 9):
        for size in (0, 2, 3, 4, 8):
            for zero in (None, False):
                yield Case('chunks-{}-{}-{}'.format(n, size, zero), chunks, '{} times in chunks of {}'.format(n, size), lim, n=n, size=size, zero=zero)
    for n, size in ((2, 2), (3, 2), (5, 3), (6, 3), (5, 5), (4, 0)) + (((9, 4), (7, 2)) if big else ()):
        for zero in (None, False):
            yield Case('validation-{}-{}-{}'.format(n, size, zero), validation, '{} times in chunks of {}'.format(n, size), lim, n=n, size=size, zero=zero)
    yield Case('validation-samples', validation, '2 samples, 2 features', lim, n=4, size=2, N=2, Fe=2, key='universal')
    yield Case('validation-short', validation, 'one integration', lim, n=4, size=2, long_range=False)
    yield Case('validation-free', validation, 'directly optimised parameters', lim, n=4, size=3, free=True)
    for norm in ('l1', 'l2'):
        for mode in ('train', 'long', 'short'):
            for penalty in (True, False):
                yield Case('loss-{}-{}-{}'.format(norm, mode, penalty), loss, '3 times, 2 samples', lim, norm=norm, mode=mode, penalty=penalty)
    yield Case('loss-features', loss, '2 features', lim, norm='l2', Fe=2, N=1, key='updown')
    for linear in (True, False):
        yield Case('system-%s' % linear, system, '2 samples', lim, linear=linear)
        yield Case('simulated-%s' % linear, simulated, '5 times', lim, n=5, batch_time=2, linear=linear)
