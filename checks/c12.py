"""C12: directly optimised layer parameters are looked up by time alone."""
import re
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c07 import data_input

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the real lookup is asked for sequences of arbitrary (symbolic) times over an arbitrary (symbolic) interval; on every path of its search, the piece returned must be '
               'the one containing the time, whatever was asked before. Blocks in the time-dependent mode are driven by a stand-in solver that evaluates the derivative at symbolic times and states.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM, 'the interval has positive length']
OUTSIDE = 'more pieces and longer histories than listed per case; rounding of the piece boundaries'


def expected(t, start, end, n):
    """index of the piece containing t (the harness branches on the symbolic comparison)"""
    for i in range(n - 1, 0, -1):
        if bool(t >= start + (end - start) * i / n):
            return i
    return 0


def lookup(ctx, n, q, sym_start=True, outside=True):
    import neuro_shooting.shooting_blocks as sb
    end = ctx.tensor('end', (), sample=1.5)
    start = ctx.tensor('start', (), sample=0.25) if sym_start else torch.zeros(())
    ctx.assume(start < end)
    made = []

    def create():
        made.append(object())
        return made[-1]

    f = sb.ParticleFreeParameterFunc(time_dependent_steps=n, integration_time=torch.stack([start, end]), parameter_creation_func=create)
    ctx.check('one set of parameters per piece', len(made) == n)
    ctx.check('listed in order', list(f.get_time_parameter_list()) == made)
    for k in range(q):
        t = ctx.tensor('t%d' % k, (), sample=0.3 + 0.4 * ((3 * k) % 4))
        if not outside:
            ctx.assume(t >= start)
            ctx.assume(t <= end)
        got = f.get_parameters_at_time(t)
        ctx.check('known parameters {}'.format(k), any(got is m for m in made))
        i = [j for j, m in enumerate(made) if m is got][0]
        if i > 0:
            ctx.check('query {}: not before the piece'.format(k), t >= start + (end - start) * i / n)
        if i < n - 1:
            ctx.check('query {}: not after the piece'.format(k), t < start + (end - start) * (i + 1) / n)


def piece_parameters(block, n, shp):
    """registered parameters by piece"""
    pars = list(block.named_parameters())
    per = sum(len(v) for v in shp.values())
    out = [dict() for _ in range(n)]
    for pos, (name, p) in enumerate(pars):
        m = re.search(r'timestep(\d+)', name)
        i = int(m.group(1)) if m else pos // per
        ok = [(o, k) for o in shp for k in shp[o] if name.endswith(o + '_' + k)]
        if len(ok) == 1 and i < n:
            out[i].setdefault(ok[0][0], {})[ok[0][1]] = p
    return out


def block(ctx, key, n, q, nl='tanh', Fe=1, K=1, size=None, length=None, analytic=False, passes=1):
    times = []

    def evaluate(r, func, x0, t):
        L = t[-1]
        for k in range(q):
            u = ctx.tensor('t{}_{}'.format(r, k), (), sample=0.2 + 0.35 * ((2 * k) % 3))
            y = ctx.tensor('z{}_{}'.format(r, k), tuple(x0.shape), requires_grad=True)
            got = func(u, y)
            i = expected(u, torch.zeros(()), L, n)
            s, c, d = m.disassemble_tensor(y)
            P = {o: {kk: v for kk, v in dd.items()} for o, dd in pieces[i].items()}
            ds, dc, dx = m.disassemble_tensor(got)
            fx = cm.field(key, P, d['b'], nl)
            for kk in d['b']:
                ctx.check_eq('pass {} query {} data {}'.format(r, k, kk), dx['b'][kk], fx['dot_' + kk])
            times.append(u)

    S = cm.Solver(ctx, evaluate=evaluate)
    T = ctx.scalar('T', pos=True) if length is None else length
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, size=size, name='b', use_analytic_solution=analytic,
                         block_kw=dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=n, max_integration_time=T))
    shp = cm.default_param_shapes(m)
    for r in range(passes):
        if r:
            for nm, p in b.named_parameters():
                ctx.set_values(p, 'trained.' + nm)
        pieces = piece_parameters(b, n, shp)
        ctx.check('every piece is registered for optimisation', all({o: sorted(v) for o, v in pc.items()} == {o: sorted(v) for o, v in shp.items()} for pc in pieces))
        ctx.check('nothing else is', len(list(b.named_parameters())) == n * sum(len(v) for v in shp.values()))
        ctx.check('trainable', all(p.requires_grad for _, p in b.named_parameters()))
        ctx.check('different pieces, different parameters', len(set(id(p) for _, p in b.named_parameters())) == len(list(b.named_parameters())))
        b(x=data_input(ctx, key, Fe, 1, size, tag='x%d' % r))
    ctx.check('derivative evaluated', len(times) == q * passes)


def steps_default(ctx, key='simple'):
    """the number of pieces asked for is the number registered, also for the RNN version (one)"""
    S = cm.Solver(ctx)
    for kw, n in ((dict(use_particle_free_rnn_mode=True), 1), (dict(use_particle_free_rnn_mode=True, nr_of_particle_free_time_dependent_steps=4), 1),
                  (dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=1), 1), (dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=5), 5)):
        b, m = cm.make_block(ctx, key, S, name='b%d' % n, symbolic=False, block_kw=kw)
        shp = cm.default_param_shapes(m)
        ctx.check('pieces {}'.format(n), len(list(b.named_parameters())) == n * sum(len(v) for v in shp.values()))
    ctx.raises('both modes', ValueError, lambda: cm.make_block(ctx, key, S, name='c', symbolic=False, block_kw=dict(use_particle_free_rnn_mode=True, use_particle_free_time_dependent_mode=True)))


def cases(tier):
    out = []
    big = tier == 'thorough'
    for n, q in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 2), (7, 1), (7, 2), (10, 2), (10, 1), (13, 1)) + (((2, 4), (4, 3), (12, 2), (25, 1)) if big else ()):
        out.append(Case('lookup-{}-{}'.format(n, q), lookup, '{} pieces, {} queries at any times'.format(n, q), {'max_paths': 20000}, n=n, q=q))
    for n, q in ((3, 3),) + (((4, 3), (3, 4)) if big else ()):
        out.append(Case('lookup-inside-{}-{}'.format(n, q), lookup, '{} pieces, {} queries within the interval'.format(n, q), {'max_paths': 20000}, n=n, q=q, outside=False))
    for key in cm.MODELS:
        M = cm.MODELS[key]
        size = (1, 2) if M.conv else None
        out.append(Case(key, block, '3 pieces, 1 evaluation at any time', {}, key=key, n=3, q=1, size=size))
        if key in ('simple', 'updown', 'conv'):
            out.append(Case(key + '-two', block, '2 pieces, 2 evaluations', {}, key=key, n=2, q=2, size=size))
            out.append(Case(key + '-passes', block, '2 pieces, 1 evaluation in each of 2 integrations', {}, key=key, n=2, q=1, passes=2, size=size))
        if M.analytic:
            out.append(Case(key + '-analytic', block, '2 pieces, analytic, 1 evaluation', {}, key=key, n=2, q=1, size=size, analytic=True))
    out.append(Case('number', steps_default, 'number of pieces', {}))
    return out
