"""C22: transposed-state mode equals transposing around the derivative."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c03 import weights
from checks.c05 import blocks_of, cat
from checks.c07 import data_input

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the same model with and without the option, on symbolic states, costates and data; the flat derivative of the one must be, entry by entry, the derivative of the other on the exchanged tensors, '
               'exchanged back. Compared both with the model without the option and with the stated equations; also through a block and over repeated calls with other sizes.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.KINK]
OUTSIDE = 'convolutional models (the option is for vector states); data with extra leading dimensions; larger sizes than listed'


def tr(dd):
    return sd({n: sd({k: v.transpose(1, 2) for k, v in dd[n].items()}) for n in dd})


def around(ctx, key, nl='tanh', Fe=1, K=2, pd=2, infl=2, N=1, blocks=None, analytic=False, weighted=True, rnn=False, grad=True, sizes=None, gradient=False):
    """states of pd x features in the model's own layout are handed over as features x pd"""
    blocks = blocks or [('blk', Fe)]
    kw, w = weights(ctx, key, weighted)
    make = lambda flag: cm.build(key, nl, sum(f for _, f in blocks), K, pd=pd, infl=infl, use_analytic_solution=analytic, use_rnn_mode=rnn, transpose_state_when_forward=flag, **kw)
    m, ref = make(True), make(False)
    for r, (pdr, Nr) in enumerate(sizes or [(pd, N), (pd, N + 1)]):
        if rnn:
            m, ref = make(True), make(False)
        s, c, d = blocks_of(ctx, key, blocks, K, pdr, infl, None, Nr, tag='r%d' % r)
        ts, tc, td = tr(s), tr(c), tr(d)
        x, plans = m.assemble_tensor(ts, tc, td)
        ctx.check_eq('flat state', x, cm.flat_of(ts, tc, td))
        m.set_auto_assembly_plans(plans)
        t = torch.zeros(()) if r == 0 else ctx.tensor('t%d' % r, (), pos=True)
        if not grad:
            x = x.detach()
        out = m(t, x)
        ctx.check('layout', tuple(out.shape) == tuple(x.shape))
        ds, dc, dd, po = ref.compute_gradients(t, s, c, d)
        want = cm.flat_of(tr(ds), tr(dc), tr(dd))
        ctx.check_eq('derivative %d' % r, out, want)
        if r == 0:
            ctx.check_eq('penalty', m.current_norm_penalty.reshape(-1), ref.current_norm_penalty.reshape(-1))
            P = cm.params_of(po)
            f = cm.field(key, P, cat(d, 2), nl)
            gs, gc, gd = m.disassemble_tensor(out)
            g = cat(tr(gd), 2)
            for k in f:
                ctx.check_eq('data ' + k, g[k[4:]], f[k])
        if gradient:
            ww = ctx.tensor('w%d' % r, tuple(out.shape))
            lv = [v for dd_ in (s, c, d) for n in dd_ for v in dd_[n].values()]
            for i, (a, b) in enumerate(zip(cm.grads((ww * out).sum(), lv), cm.grads((ww * want).sum(), lv))):
                ctx.check_eq('gradient %d %d' % (r, i), a, b)


def through_block(ctx, key, nl='tanh', L=2, Fe=1, K=2, N=2, analytic=False, evals=2):
    """a block whose particles are stored features x length"""
    import neuro_shooting.shooting_blocks as sb

    def evaluate(n, func, x0, t):
        for j in range(evals):
            y = x0 if j == 0 else ctx.tensor('z%d%d' % (n, j), tuple(x0.shape), requires_grad=True)
            tt = t[0] if j == 0 else ctx.tensor('t%d%d' % (n, j), (), pos=True)
            dy = func(tt, y)
            s, c, d = m.disassemble_tensor(y)
            ds, dc, dd, _ = ref.compute_gradients(tt, tr(s), tr(c), tr(d))
            ctx.check_eq('derivative %d %d' % (n, j), dy, cm.flat_of(tr(ds), tr(dc), tr(dd)))
        seen.append(n)

    seen = []
    S = cm.Solver(ctx, evaluate=evaluate)
    kw = dict(particle_dimension=Fe, particle_size=L, use_analytic_solution=analytic)
    m = cm.build(key, nl, Fe, K, transpose_state_when_forward=True, **kw)
    ref = cm.build(key, nl, Fe, K, **kw)
    b = sb.ShootingBlockBase(name='blk', shooting_integrand=m, integrator=S)
    cm.symbolic_parameters(ctx, b, 'blk')
    for r in range(2):
        x = ctx.tensor('x%d' % r, (N + r, Fe, L))
        out = b(x=x)
        got, st, co, da = out
        gs, gc, gd = m.disassemble_tensor(S.calls[-1]['x0'])
        ctx.check_eq('data starts as given', gd['blk']['q1'], x)
        ys, yc, yd = m.disassemble_tensor(S.calls[-1]['y'][-1] if S.calls[-1]['y'].ndim > 1 else S.calls[-1]['y'])
        ctx.check_same('result', da, yd)
        ctx.check_same('states', st, ys)
    ctx.check('evaluated', len(seen) == 2)


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for key in cm.VEC:
        M = cm.MODELS[key]
        yield Case(key, around, '2 particles of 2 x 1, 1 and 2 samples', lim, key=key)
        yield Case(key + '-wide', around, '1 particle of 2 x 2, inflation 2, relu', lim, key=key, Fe=2, K=1, nl='relu', weighted=False)
        yield Case(key + '-long', around, 'particles of 3 x 1', lim, key=key, pd=3, K=1, N=2, nl='sigmoid', weighted=False)
        yield Case(key + '-sizes', around, 'changing sizes between calls', lim, key=key, K=1, sizes=[(1, 2), (3, 1), (2, 2)], weighted=False)
        yield Case(key + '-two', around, 'two blocks of 1 and 2 features', lim, key=key, K=1, blocks=[('a', 1), ('b', 2)], weighted=False)
        yield Case(key + '-rnn', around, 'RNN mode', lim, key=key, rnn=True)
        yield Case(key + '-nograd', around, 'adjoint mode (input without gradient)', lim, key=key, grad=False, K=1)
        yield Case(key + '-gradient', around, 'gradients of the derivative', lim, key=key, K=1, N=1, infl=1, gradient=True, weighted=False)
        if M.analytic:
            yield Case(key + '-analytic', around, 'hand-derived equations', lim, key=key, analytic=True, Fe=2, pd=1)
        if key in ('simple', 'debug', 'second'):
            yield Case(key + '-block', through_block, 'through a block, 2 integrations x 2 evaluations', lim, key=key)
        yield Case(key + '-many', around, '8 particles of 2 x 1, 9 samples, inflation 3', lim, key=key, Fe=1, K=8, pd=2, N=9, infl=3, nl='relu', weighted=False)
        if big:
            yield Case(key + '-big', around, '3 particles of 3 x 2, 3 samples, inflation 3', lim, key=key, Fe=2, K=3, pd=3, N=3, infl=3)
