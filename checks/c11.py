"""C11: checkpointing does not change what an integration returns; the configured solver is the one used."""
import importlib.util
import sys
import torch
import torchdiffeq
from symtorch.runner import Case
from checks import common as cm
from checks.c07 import data_input

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the real checkpointed integration, on top of the real fixed-step solvers, is run on symbolic strictly increasing time grids, symbolic checkpoint intervals, initial '
               'values and derivative parameters; every interleaving of output times and checkpoints is a path. The result, the evaluation times and the gradients must equal those of one direct integration '
               'over the merged grid. The settings reaching the solver are compared, with symbolic tolerances and step sizes, through a stand-in for the solver library.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, 'output times are strictly increasing']
OUTSIDE = 'the ANODE library (not shipped with the repository); adaptive solvers on symbolic values (their settings are covered, their arithmetic is not); longer time grids than listed per case'


class Field(torch.nn.Module):
    """an arbitrary smooth time-dependent derivative"""

    def __init__(self, th):
        super(Field, self).__init__()
        self.th = th
        self.times = []

    def forward(self, t, x):
        self.times.append(t)
        return self.th * torch.tanh(x + t)


def grid(ctx, n, tag='t'):
    t = ctx.tensor(tag, (n,), sample=[0.25 + 0.5 * i for i in range(n)])
    for i in range(n - 1):
        ctx.assume(t[i] < t[i + 1])
    return t


def merged(t, cps):
    """the union of two increasing grids, with the positions of t in it"""
    out, pos, i, j = [], [], 0, 0
    while i < len(t) or j < len(cps):
        if j == len(cps):
            pos.append(len(out)); out.append(t[i]); i += 1
        elif i == len(t):
            out.append(cps[j]); j += 1
        elif bool(t[i] == cps[j]):
            pos.append(len(out)); out.append(t[i]); i += 1; j += 1
        elif bool(t[i] < cps[j]):
            pos.append(len(out)); out.append(t[i]); i += 1
        else:
            out.append(cps[j]); j += 1
    return torch.stack(out), pos


def compare(ctx, I, t, g, pos, method, dim=1, grad=True, evals=True, options=None):
    x0 = ctx.tensor('x0', (dim,), requires_grad=True)
    th = ctx.tensor('th', (dim,), requires_grad=True)
    f = Field(th)
    y = I.integrate(func=f, x0=x0, t=t)
    t1 = list(f.times)
    x1 = x0.detach().clone().requires_grad_(True)
    th1 = th.detach().clone().requires_grad_(True)
    f1 = Field(th1)
    ref = torchdiffeq.odeint(f1, x1, g, method=method, options=options or {})
    t2 = list(f1.times)
    want = torch.stack([ref[k] for k in pos])
    ctx.check_eq('solution', y, want)
    ctx.check_eq('starts with the initial value', y[0], x0)
    if evals:
        ctx.check('number of evaluations', len(t1) == len(t2))
        ctx.check_eq('evaluation times', torch.stack([u.reshape(()) for u in t1]), torch.stack([u.reshape(()) for u in t2]))
    if grad:
        w = ctx.tensor('w', tuple(y.shape))
        (w * y).sum().backward()
        (w * want).sum().backward()
        ctx.check_eq('gradient for the initial value', x0.grad, x1.grad)
        ctx.check_eq('gradient for the parameters', th.grad, th1.grad)


def number(ctx, n, m, method='euler', grad=True, dim=1):
    import neuro_shooting.generic_integrator as gi
    t = grid(ctx, n)
    I = gi.GenericIntegrator('odeint', method, step_size=None, nr_of_checkpoints=m)
    cps = [t[0] + (t[-1] - t[0]) * k / (m + 1) for k in range(1, m + 1)]
    g, pos = merged(list(t), cps)
    compare(ctx, I, t, g, pos, method, dim, grad)


def interval(ctx, n, most, method='euler', grad=True):
    import neuro_shooting.generic_integrator as gi
    t = grid(ctx, n)
    h = ctx.tensor('h', (), pos=True)
    ctx.assume(t[-1] - t[0] <= most * h)
    I = gi.GenericIntegrator('odeint', method, step_size=None, checkpointing_time_interval=h)
    cps = []
    for k in range(1, most + 1):
        if bool(t[0] + k * h < t[-1]):
            cps.append(t[0] + k * h)
    g, pos = merged(list(t), cps)
    compare(ctx, I, t, g, pos, method, 1, grad)


def reused(ctx, n=3, m=1, ends=False):
    """one integrator, several integrations: nothing is carried over"""
    import neuro_shooting.generic_integrator as gi
    I = gi.GenericIntegrator('odeint', 'euler', step_size=None, nr_of_checkpoints=m)
    for r in range(2):
        if not ends:
            t = grid(ctx, n - r, 't%d' % r)
        elif r == 0:
            t = first = grid(ctx, n, 't0')
        else:
            # the same ends, other times in between
            t = torch.cat((first[:1], ctx.tensor('t1', (n - 2,)), first[-1:]))
            for i in range(n - 1):
                ctx.assume(t[i] < t[i + 1])
        cps = [t[0] + (t[-1] - t[0]) * k / (m + 1) for k in range(1, m + 1)]
        g, pos = merged(list(t), cps)
        x0 = ctx.tensor('x%d' % r, (1,))
        f = Field(ctx.tensor('th%d' % r, (1,)))
        ctx.check_eq('solution {}'.format(r), I.integrate(func=f, x0=x0, t=t), torchdiffeq.odeint(f, x0, g, method='euler')[torch.tensor(pos)])


def stepsize(ctx, times, step, m=None, h=None, method='euler'):
    """checkpoints on the solver's own grid: equals the direct integration of the same integrator settings"""
    import neuro_shooting.generic_integrator as gi
    kw = dict(nr_of_checkpoints=m) if m is not None else dict(checkpointing_time_interval=h)
    t = torch.tensor(times)
    I = gi.GenericIntegrator('odeint', method, step_size=step, **kw)
    D = gi.GenericIntegrator('odeint', method, step_size=step)
    x0 = ctx.tensor('x0', (2,))
    f = Field(ctx.tensor('th', (2,)))
    a = I.integrate(func=f, x0=x0, t=t)
    b = D.integrate(func=f, x0=x0, t=t)
    c = torchdiffeq.odeint(f, x0, t, method=method, options=dict(step_size=step))
    ctx.check_eq('with checkpoints', a, c)
    ctx.check_eq('without checkpoints', b, c)


def double(ctx, lo, hi, n, m=None, h=None):
    """output times in double precision while single precision is the default"""
    import neuro_shooting.generic_integrator as gi
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32)
    try:
        t = torch.linspace(lo, hi, n, dtype=torch.float64)
        kw = dict(nr_of_checkpoints=m) if m is not None else dict(checkpointing_time_interval=h)
        I = gi.GenericIntegrator('odeint', 'euler', step_size=None, **kw)
        x0 = ctx.tensor('x0', (1,), dtype=torch.float64)
        f = Field(ctx.tensor('th', (1,), dtype=torch.float64))
        y = I.integrate(func=f, x0=x0, t=t)
        # (rounding of the times keeps the values out of reach of exact comparison; what is returned for which time is not)
        ctx.check('one result per requested time', tuple(y.shape) == (n, 1))
        ctx.check_eq('starts with the initial value', y[0], x0)
    finally:
        torch.set_default_dtype(old)


def adjoint(ctx, n=3, m=1):
    import neuro_shooting.generic_integrator as gi
    t = grid(ctx, n)
    for cp in (None, m):
        I = gi.GenericIntegrator('odeint', 'euler', step_size=None, use_adjoint_integration=True, nr_of_checkpoints=cp)
        cps = [t[0] + (t[-1] - t[0]) * k / (m + 1) for k in range(1, m + 1)] if cp else []
        g, pos = merged(list(t), cps)
        x0 = ctx.tensor('x0', (1,), requires_grad=True)
        f = Field(torch.nn.Parameter(ctx.tensor('th', (1,))))
        ctx.check_eq('solution', I.integrate(func=f, x0=x0, t=t), torchdiffeq.odeint(f, x0, g, method='euler')[torch.tensor(pos)])


def block_rnn(ctx, key='simple'):
    """a block in RNN mode with checkpoints: gradients"""
    import neuro_shooting.generic_integrator as gi
    got = []
    x = data_input(ctx, key, 1, 1, None)
    for m in (None, 1):
        I = gi.GenericIntegrator('odeint', 'euler', integrator_options={'step_size': 0.5}, nr_of_checkpoints=m)
        b, _ = cm.make_block(ctx, key, I, 'tanh', 1, 1, name='b', use_rnn_mode=True)
        y = b(x=x)[0]
        try:
            y.sum().backward()
        except RuntimeError as e:
            ctx.check('gradients of a block in RNN mode with checkpoints', False)
        got.append((y, {n: p.grad for n, p in b.named_parameters()}))
    ctx.check_eq('output', got[1][0], got[0][0])
    ctx.check_same('gradients', got[1][1], got[0][1])


def block(ctx, key='simple', K=1, size=None, method='euler'):
    """a whole block, with and without checkpoints: outputs, penalty and gradients"""
    import neuro_shooting.generic_integrator as gi
    got = []
    x = data_input(ctx, key, 1, 1, size)
    for m in (None, 1):
        I = gi.GenericIntegrator('odeint', method, integrator_options={'step_size': 0.5}, nr_of_checkpoints=m)
        b, _ = cm.make_block(ctx, key, I, 'tanh', 1, K, name='b', size=size, infl=1)
        y, s, c, d = b(x=x)
        (y.sum() + b.get_norm_penalty().sum()).backward()
        got.append((y, s, c, d, b.get_norm_penalty(), {n: p.grad for n, p in b.named_parameters()}))
    for i, what in enumerate(('output', 'states', 'costates', 'data', 'penalty', 'gradients')):
        ctx.check_same(what, {'_': got[1][i]}, {'_': got[0][i]})


# ------------------------------------------------------------------ settings
class Library(object):
    """stands in for torchdiffeq while a fresh copy of the integrator module is loaded and used"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []

    def __enter__(self):
        self.old = torchdiffeq.odeint, torchdiffeq.odeint_adjoint
        torchdiffeq.odeint = lambda *a, **k: self.solve('direct', *a, **k)
        torchdiffeq.odeint_adjoint = lambda *a, **k: self.solve('adjoint', *a, **k)
        src = importlib.util.find_spec('neuro_shooting.generic_integrator')
        spec = importlib.util.spec_from_file_location('neuro_shooting.generic_integrator', src.origin)
        self.module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.module)
        return self

    def __exit__(self, *a):
        torchdiffeq.odeint, torchdiffeq.odeint_adjoint = self.old

    def solve(self, which, func, y0, t, rtol=None, atol=None, method=None, options=None, **kw):
        self.calls.append(dict(which=which, func=func, y0=y0, t=t, rtol=rtol, atol=atol, method=method, options=dict(options or {}), kw=kw))
        # a flow that can be continued from where it stopped
        return torch.stack([y0 + torch.tanh(u) - torch.tanh(t[0]) for u in t])


FIXED = ['euler', 'midpoint', 'rk4', 'explicit_adams', 'fixed_adams']
ADAPTIVE = ['dopri5', 'adams']


def settings(ctx, method, adj=False, cp=None, given=True, own_step=False):
    with Library(ctx) as L:
        kw = {}
        rtol, atol, step = ctx.scalar('rtol', pos=True), ctx.scalar('atol', pos=True), ctx.scalar('step', pos=True)
        mine, extra = ctx.scalar('mine', pos=True), ctx.scalar('extra')
        opts = {'perturb': extra}
        if own_step:
            opts['step_size'] = mine
        keep = dict(opts)
        if given:
            kw = dict(rtol=rtol, atol=atol, step_size=step)
        I = L.module.GenericIntegrator(integrator_library='odeint', integrator_name=method, use_adjoint_integration=adj, integrator_options=opts, nr_of_checkpoints=cp, event_fn=extra, **kw)
        t = grid(ctx, 3)
        x0 = ctx.tensor('x0', (2,))
        f = Field(ctx.tensor('th', (2,)))
        y = I.integrate(func=f, x0=x0, t=t)
        ctx.check_eq('solution', y, torch.stack([x0 + torch.tanh(u) - torch.tanh(t[0]) for u in t]))
        ctx.check('solver was asked', len(L.calls) == (1 if cp is None else cp + 1))
        for c in L.calls:
            ctx.check('direct or adjoint', c['which'] == ('adjoint' if adj else 'direct'))
            ctx.check('method', c['method'] == method)
            ctx.check('function', c['func'] is f)
            if given:
                ctx.check_eq('rtol', c['rtol'], rtol)
                ctx.check_eq('atol', c['atol'], atol)
            o = dict(c['options'])
            ctx.check_eq('own option', o.pop('perturb', None), extra)
            if own_step:
                ctx.check_eq('own step size', o.pop('step_size', None), mine)
            elif method in FIXED:
                ctx.check('step size is set', 'step_size' in o)
                if given:
                    ctx.check_eq('step size', o['step_size'], step)
                o.pop('step_size')
            ctx.check('no further options', not o)
            ctx.check_eq('additional argument', c['kw'].pop('event_fn', None), extra)
            ctx.check('no further arguments', not c['kw'])
        ctx.check_eq('starts at', L.calls[0]['y0'], x0)
        ctx.check_eq('from', L.calls[0]['t'][0], t[0])
        ctx.check_eq('to', L.calls[-1]['t'][-1], t[-1])


def fresh_blocks(L):
    """a copy of the block module that uses the integrator module loaded by the stand-in"""
    import neuro_shooting
    name = 'neuro_shooting.generic_integrator'
    import neuro_shooting.generic_integrator as gi
    sys.modules[name] = neuro_shooting.generic_integrator = L.module
    try:
        src = importlib.util.find_spec('neuro_shooting.shooting_blocks')
        spec = importlib.util.spec_from_file_location('neuro_shooting.shooting_blocks', src.origin)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        sys.modules[name] = neuro_shooting.generic_integrator = gi
    return m


def own_solver(ctx, method, adj=False, options='extra', external=False, end=None):
    """a block given solver settings instead of a solver"""
    with Library(ctx) as L:
        sb = fresh_blocks(L)
        extra, step = ctx.scalar('extra'), ctx.scalar('step', pos=True)
        opts = {'none': None, 'extra': {'perturb': extra}, 'step': {'step_size': step}}[options]
        kw = {k: v for k, v in dict(integrator_name=method, use_adjoint_integration=adj, integrator_options=opts, max_integration_time=end).items() if v is not None}
        if external:
            # an integrator given explicitly takes precedence
            kw['integrator'] = L.module.GenericIntegrator('odeint', 'midpoint', step_size=step)
        m = cm.build('simple', 'tanh', 1, 1)
        b = sb.ShootingBlockBase(name='b', shooting_integrand=m, integrator_library='odeint', **kw)
        cm.symbolic_parameters(ctx, b, 'b')
        for r in range(2):
            L.calls = []
            x = data_input(ctx, 'simple', 1, 1 + r, None, tag='x%d' % r)
            y = b(x=x)[0]
            ctx.check('solver was asked once', len(L.calls) == 1)
            c = L.calls[0]
            t = c['t']
            ctx.check_eq('interval', torch.stack([t[0], t[-1]]), torch.tensor([0., 1. if end is None else end]))
            ctx.check_eq('result', y, x + torch.tanh(t[-1]) - torch.tanh(t[0]))
            ctx.check('direct or adjoint', c['which'] == ('adjoint' if adj and not external else 'direct'))
            o = dict(c['options'])
            if external:
                ctx.check('method', c['method'] == 'midpoint')
                ctx.check_eq('step size', o.pop('step_size', None), step)
            else:
                ctx.check('method', c['method'] == method if method else c['method'] in FIXED + ADAPTIVE)
                if options == 'step':
                    ctx.check_eq('step size', o.pop('step_size', None), step)
                if options == 'extra':
                    ctx.check_eq('option', o.pop('perturb', None), extra)
                if c['method'] in FIXED:
                    o.pop('step_size', None)
            ctx.check('no further options', not o)
        ctx.check('the options given are left alone', opts is None or list(opts) == [{'extra': 'perturb', 'step': 'step_size'}[options]])


def own_solver_refused(ctx):
    import neuro_shooting.shooting_blocks as sb
    E = (ValueError, KeyError, AssertionError, NotImplementedError)
    m = cm.build('simple', 'tanh', 1, 1)
    for k in (dict(integrator_library='scipy'), dict(integrator_library='odeint', integrator_name='rk45')):
        ctx.raises('refused', E, sb.ShootingBlockBase, name='b', shooting_integrand=m, **k)
    x = ctx.tensor('x', ())
    ctx.check_eq('reached', x, x)


def shared(ctx, first='rk4', second='rk4'):
    """one dictionary of options for two integrators"""
    with Library(ctx) as L:
        a, b, e = ctx.scalar('a', pos=True), ctx.scalar('b', pos=True), ctx.scalar('e')
        opts = {'perturb': e}
        I1 = L.module.GenericIntegrator('odeint', first, integrator_options=opts, step_size=a)
        I2 = L.module.GenericIntegrator('odeint', second, integrator_options=opts, step_size=b)
        t = grid(ctx, 2)
        x0 = ctx.tensor('x0', (1,))
        f = Field(ctx.tensor('th', (1,)))
        for I in (I1, I2, I1):
            I.integrate(func=f, x0=x0, t=t)
        for c, s, n in zip(L.calls, (a, b, a), (first, second, first)):
            o = dict(c['options'])
            ctx.check('method', c['method'] == n)
            if n in FIXED:
                ctx.check_eq('step size', o.pop('step_size', None), s)
            ctx.check_eq('option', o.pop('perturb', None), e)
            ctx.check('no further options', not o)
        ctx.check('the dictionary given is left alone', list(opts) == ['perturb'])


def defaults(ctx):
    with Library(ctx) as L:
        t = grid(ctx, 2)
        x0 = ctx.tensor('x0', (1,))
        f = Field(ctx.tensor('th', (1,)))
        for kw in ({}, dict(integrator_library='odeint'), dict(integrator_name='dopri5')):
            L.module.GenericIntegrator(**kw).integrate(func=f, x0=x0, t=t)
        for c in L.calls:
            ctx.check('direct', c['which'] == 'direct')
            ctx.check('known method', c['method'] in FIXED + ADAPTIVE)
        ctx.check('named', L.calls[2]['method'] == 'dopri5')
        # options of one integrator must not reach another one
        L.calls[:] = []
        L.module.GenericIntegrator('odeint', 'euler', step_size=ctx.scalar('s', pos=True))
        L.module.GenericIntegrator('odeint', 'dopri5').integrate(func=f, x0=x0, t=t)
        ctx.check('no options', not L.calls[0]['options'])


def refused(ctx):
    import neuro_shooting.generic_integrator as gi
    E = (ValueError, KeyError, AssertionError, NotImplementedError)
    G = gi.GenericIntegrator
    ctx.raises('unknown library', E, G, integrator_library='scipy', integrator_name='rk4')
    ctx.raises('unknown library, no solver named', E, G, integrator_library='scipy')
    ctx.raises('unknown solver', E, G, integrator_library='odeint', integrator_name='rk45')
    ctx.raises('unknown solver, default library', E, G, integrator_name='rk45')
    ctx.raises('solver of the other library', E, G, integrator_library='odeint', integrator_name='rk2')
    ctx.raises('solver of the other library', E, G, integrator_library='anode', integrator_name='dopri5')
    x0 = ctx.tensor('x0', (1,))
    f = Field(ctx.tensor('th', (1,)))
    t = grid(ctx, 3)
    ctx.raises('two ways of checkpointing', E, lambda: G('odeint', 'euler', nr_of_checkpoints=1, checkpointing_time_interval=0.5).integrate(func=f, x0=x0, t=t))
    ctx.raises('one time only', E, lambda: G('odeint', 'euler', nr_of_checkpoints=1).integrate(func=f, x0=x0, t=t[:1]))
    ctx.raises('one time only', E, lambda: G('odeint', 'euler', checkpointing_time_interval=0.5).integrate(func=f, x0=x0, t=t[:1]))
    ctx.check('nothing was evaluated', not f.times)


def cases(tier):
    out = []
    big = tier == 'thorough'
    for n in (2, 3, 4) + ((5,) if big else ()):
        for m in (1, 2, 3) + ((4,) if big else ()):
            out.append(Case('number-{}-{}'.format(n, m), number, '{} output times, {} checkpoints'.format(n, m), {}, n=n, m=m, grad=n + m <= 6))
        for most in (1, 2, 3) + ((4,) if big else ()):
            out.append(Case('interval-{}-{}'.format(n, most), interval, '{} output times, up to {} intervals'.format(n, most), {}, n=n, most=most, grad=n + most <= 6))
    out.append(Case('number-many', number, '2 output times, 8 checkpoints', {}, n=2, m=8, grad=False))
    out.append(Case('number-times', number, '8 output times, 1 checkpoint', {}, n=8, m=1, grad=False))
    out.append(Case('interval-many', interval, '2 output times, up to 8 intervals', {}, n=2, most=8, grad=False))
    for method in ('midpoint', 'rk4'):
        out.append(Case('number-' + method, number, '3 output times, 1 checkpoint', {}, n=3, m=1, method=method, grad=method != 'rk4'))
        out.append(Case('interval-' + method, interval, '3 output times, up to 2 intervals', {}, n=3, most=2, method=method, grad=method != 'rk4'))
    out.append(Case('vector', number, 'two components', {}, n=3, m=1, dim=2))
    out.append(Case('reused', reused, 'two integrations with one integrator', {}))
    out.append(Case('reused-ends', reused, 'two integrations between the same ends with one integrator', {}, ends=True))
    for i, (lo, hi, n, m, h) in enumerate(((0.1, 1., 4, 2, None), (0., 0.7, 4, 2, None), (0.1, 1., 4, None, 0.25), (0., 0.7, 8, None, 0.1))):
        out.append(Case('double-{}'.format(i), double, 'double precision times, {} to {}'.format(lo, hi), {}, lo=lo, hi=hi, n=n, m=m, h=h))
    out.append(Case('adjoint', adjoint, 'adjoint integration, forward result', {}))
    for i, (ts, st, m, h) in enumerate((([0., 1.], 0.5, 1, None), ([0., 0.5, 1.], 0.25, 1, None), ([0., 0.25, 1., 1.5], 0.25, 2, None), ([0., 1.], 0.25, None, 0.5), ([0., 0.5, 1.5], 0.25, None, 0.75), ([0., 1., 1.5], 0.5, None, 2.))):
        for method in ('euler', 'midpoint'):
            out.append(Case('stepsize-{}-{}'.format(method, i), stepsize, 'times {} step {}'.format(ts, st), {}, times=ts, step=st, m=m, h=h, method=method))
    for method in FIXED + ADAPTIVE:
        for adj in (False, True):
            a = '-adjoint' if adj else ''
            out.append(Case('settings-{}{}'.format(method, a), settings, 'any tolerances and step size', {}, method=method, adj=adj))
            out.append(Case('settings-cp-{}{}'.format(method, a), settings, 'any tolerances and step size, 2 checkpoints', {}, method=method, adj=adj, cp=2))
        out.append(Case('settings-default-' + method, settings, 'no tolerances given', {}, method=method, given=False))
        out.append(Case('settings-own-' + method, settings, 'step size among the options', {}, method=method, own_step=True))
    for a, b in (('rk4', 'rk4'), ('euler', 'dopri5'), ('dopri5', 'midpoint')):
        out.append(Case('shared-{}-{}'.format(a, b), shared, 'one options dictionary for two integrators', {}, first=a, second=b))
    out.append(Case('defaults', defaults, 'default settings', {}))
    out.append(Case('refused', refused, 'unknown names and contradictory settings', {}))
    for key in ('simple', 'updown') + (tuple(cm.VEC) if big else ()):
        out.append(Case('block-' + key, block, 'a whole block, one checkpoint', {'generic': True}, key=key))
    for i, kw in enumerate((dict(method='rk4'), dict(method='rk4', adj=True), dict(method='euler', options='step'), dict(method='dopri5', options='none'), dict(method=None, options='none'), dict(method='dopri5', adj=True),
                            dict(method='adams', options='none', end=2.), dict(method='rk4', adj=True, external=True), dict(method=None, options='extra', adj=True), dict(method='midpoint', options='step', adj=True, end=0.5))):
        out.append(Case('block-own-{}'.format(i), own_solver, 'a block given solver settings, 2 integrations: {}'.format(kw), {'generic': True}, **kw))
    out.append(Case('block-own-refused', own_solver_refused, 'a block given unknown solver settings', {}))
    out.append(Case('block-rnn', block_rnn, 'a block in RNN mode, one checkpoint', {'generic': True}))
    return out
