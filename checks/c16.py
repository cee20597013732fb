"""C16: RNN mode freezes the layer parameters for one integration."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c03 import weights
from checks.c07 import data_input, particles, same_gradient
from checks.c08 import joined, dim_of, second
from checks.c12 import piece_parameters

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: blocks in RNN mode are driven by a stand-in solver that evaluates the derivative several times per integration, at unrelated symbolic states and times, over several integrations '
               'with other particles. All evaluations of one integration must use the optimal parameters of its first evaluation (or the directly optimised ones), and costates must follow the equations with those '
               'parameters held fixed. Gradients of late evaluations must reach the particles of the start.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM, cm.KINK]
OUTSIDE = 'more integrations, evaluations, particles and features than listed per case'


def check_derivative(ctx, label, key, m, y, dy, P, nl):
    """derivative at y with the layer parameters P held fixed"""
    s, c, d = m.disassemble_tensor(y)
    ds, dc, dd = m.disassemble_tensor(dy)
    n = dim_of(key)
    for got, src, what in ((ds, s, 'state'), (dd, d, 'data')):
        got, src = joined(got, n), joined(src, n)
        want = cm.field(key, P, src, nl)
        for k in src:
            ctx.check_eq('{}: {} {}'.format(label, what, k), got[k], want['dot_' + k])
    src = joined(s, n)
    want = cm.hamilton_costate(key, cm.frozen(P), src, joined(c, n), nl)
    got = joined(dc, n)
    for k in src:
        ctx.check_eq('{}: costate {}'.format(label, k), got['p_' + k], want['dot_p_' + k])


def frozen_from_start(ctx, key, nl='tanh', Fe=1, K=2, N=1, infl=2, size=None, pd=1, analytic=False, passes=2, evals=3, from_x0=True, first_time=True, weighted=True, chain=False, grad=False, modes=None):
    kw, w = weights(ctx, key, weighted)
    seen = []

    def evaluate(n, func, x0, t):
        if func is not blocks[-1][1]:
            return
        m = func
        P = None
        for j in range(evals):
            tt = t[0] if j == 0 and first_time else ctx.tensor('t{}{}'.format(n, j), (), pos=True)
            y = x0 if j == 0 and from_x0 else ctx.tensor('z{}{}'.format(n, j), tuple(x0.shape), requires_grad=True)
            dy = func(tt, y)
            if P is None:
                s, c, d = m.disassemble_tensor(y)
                P = cm.optimal_params(key, m, joined(s, dim_of(key)), joined(c, dim_of(key)), nl, w)
            check_derivative(ctx, 'integration {} evaluation {}'.format(n, j), key, m, y, dy, P, nl)
            if grad and j:
                _, _, d = m.disassemble_tensor(y)
                _, _, dd = m.disassemble_tensor(dy)
                q = list(cm.own(blocks[0][0]).values())
                want = cm.field(key, P, joined(d, dim_of(key)), nl)
                for k in want:
                    g = joined(dd, dim_of(key))[k[4:]]
                    ww = ctx.tensor('w{}{}{}'.format(n, j, k), tuple(g.shape))
                    same_gradient(ctx, 'gradient {} {} {}'.format(n, j, k), ww * g, ww * want[k], q)
        seen.append(n)

    S = cm.Solver(ctx, evaluate=evaluate)
    rnn = dict(use_analytic_solution=analytic, use_rnn_mode=True)
    if chain:
        b1, m1 = cm.make_block(ctx, key, S, nl, Fe, K, size=size, infl=infl, name='a', **kw)
        b2, m2 = second(ctx, key, S, nl, Fe, Fe, K, size, infl, 'b', own=False, **dict(rnn, **kw))
        blocks = [(b1, m1), (b2, m2)]
    else:
        blocks = [cm.make_block(ctx, key, S, nl, Fe, K, pd=pd, size=size, infl=infl, **dict(rnn, **kw))]
    for r in range(passes):
        if modes:
            # switched between training and evaluation, as validation during training does
            for b, _ in blocks:
                b.train(modes[r])
        if r:
            for b, _ in blocks:
                for n, v in b.named_parameters():
                    ctx.set_values(v, 'trained{}.{}'.format(r, n))
        x = data_input(ctx, key, Fe, N + r, size, pd=pd, tag='x%d' % r)
        out = blocks[0][0](x=x)
        for b, _ in blocks[1:]:
            out = b(pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2], data_dict_of_dicts=out[3])
    ctx.check('evaluated', len(seen) == passes)


def direct(ctx, key, nl='tanh', Fe=1, K=2, N=1, infl=2, size=None, analytic=False, passes=2, evals=2, late=False, modes=None):
    """directly optimised parameters: used throughout"""
    seen = []

    def evaluate(n, func, x0, t):
        for j in range(evals):
            tt = t[0] if j == 0 and not late else ctx.tensor('t{}{}'.format(n, j), (), pos=True)
            y = x0 if j == 0 else ctx.tensor('z{}{}'.format(n, j), tuple(x0.shape), requires_grad=True)
            dy = func(tt, y)
            check_derivative(ctx, 'integration {} evaluation {}'.format(n, j), key, m, y, dy, P, nl)
            _, _, d = m.disassemble_tensor(y)
            _, _, dd = m.disassemble_tensor(dy)
            want = cm.field(key, P, d['blk'], nl)
            for k in want:
                ww = ctx.tensor('w{}{}{}'.format(n, j, k), tuple(want[k].shape))
                same_gradient(ctx, 'gradient {} {} {}'.format(n, j, k), ww * dd['blk'][k[4:]], ww * want[k], [p for _, p in b.named_parameters()])
        seen.append(n)

    S = cm.Solver(ctx, evaluate=evaluate)
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, size=size, infl=infl, use_analytic_solution=analytic, block_kw=dict(use_particle_free_rnn_mode=True))
    shp = cm.default_param_shapes(m)
    for r in range(passes):
        if modes:
            b.train(modes[r])
        if r:
            for n, v in b.named_parameters():
                ctx.set_values(v, 'trained{}.{}'.format(r, n))
        P = piece_parameters(b, 1, shp)[0]
        ctx.check('layer parameters registered', {o: {k: tuple(v.shape) for k, v in P[o].items()} for o in P} == {o: {k: tuple(v.shape) for k, v in shp[o].items()} for o in shp})
        ctx.check('nothing else registered', len(list(b.named_parameters())) == sum(len(v) for v in shp.values()))
        b(x=data_input(ctx, key, Fe, N + r, size, tag='x%d' % r))
    ctx.check('evaluated', len(seen) == passes)


def cases(tier):
    big = tier != 'quick'
    lim = {'generic': True}
    yield Case('dampened-start', frozen_from_start, '2 integrations x 3 evaluations, first at the start', lim, key='dampened')
    yield Case('dampened-anywhere', frozen_from_start, '2 integrations x 2 evaluations, first anywhere at any time', lim, key='dampened', evals=2, from_x0=False, first_time=False, nl='relu')
    for key in cm.MODELS:
        M = cm.MODELS[key]
        kw = dict(key=key, size=(1, 2) if M.conv else None)
        K = 1 if M.conv else 2
        yield Case(key + '-start', frozen_from_start, '2 integrations x 3 evaluations, first at the start', lim, K=K, **kw)
        yield Case(key + '-anywhere', frozen_from_start, '2 integrations x 2 evaluations, first anywhere at any time', lim, K=K, evals=2, from_x0=False, first_time=False, nl='relu', **kw)
        yield Case(key + '-gradient', frozen_from_start, 'gradients of a late evaluation', lim, K=1, passes=2, evals=2, grad=True, infl=1, weighted=False, **kw)
        yield Case(key + '-chain', frozen_from_start, 'pass-through block in RNN mode', lim, K=K, passes=2, evals=2, chain=True, **kw)
        yield Case(key + '-modes', frozen_from_start, '4 integrations x 2 evaluations: training, evaluation twice, training', lim, K=K, passes=4, evals=2, modes=(True, False, False, True), **kw)
        yield Case(key + '-direct-modes', direct, 'directly optimised, 3 integrations: training, evaluation, training', lim, K=1, evals=1, passes=3, modes=(True, False, True), **kw)
        yield Case(key + '-direct', direct, 'directly optimised, 2 integrations x 2 evaluations', lim, K=K, **kw)
        yield Case(key + '-direct-late', direct, 'directly optimised, never evaluated at time zero', lim, K=K, late=True, nl='sigmoid', passes=1, **kw)
        if M.analytic:
            yield Case(key + '-analytic', frozen_from_start, 'hand-derived equations, 2 integrations x 3 evaluations', lim, analytic=True, **kw)
            yield Case(key + '-analytic-anywhere', frozen_from_start, 'hand-derived equations, first evaluation anywhere', lim, analytic=True, evals=2, from_x0=False, first_time=False, **kw)
            yield Case(key + '-analytic-gradient', frozen_from_start, 'hand-derived equations, gradients', lim, analytic=True, evals=2, K=1, grad=True, infl=1, **kw)
            yield Case(key + '-direct-analytic', direct, 'hand-derived equations, directly optimised', lim, analytic=True, **kw)
        yield Case(key + '-later', frozen_from_start, '5 integrations x 2 evaluations', lim, K=1, passes=5, evals=2, nl='sigmoid', **kw)
        if not M.conv:
            yield Case(key + '-many', frozen_from_start, '10 particles, inflation 5', lim, key=key, K=10, infl=5, passes=2, evals=2, nl='relu')
        if big:
            yield Case(key + '-long', frozen_from_start, '4 integrations x 5 evaluations', lim, K=K, passes=4, evals=5, nl='sigmoid', **kw)
            if not M.conv:
                yield Case(key + '-big', frozen_from_start, '3 particles, 2 features, 2 samples, particle dimension 2', lim, K=3, Fe=2, N=2, pd=2, **kw)
