"""C17: hooks observe the true quantities and change nothing."""
from collections import defaultdict
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c03 import weights
from checks.c07 import data_input
from checks.c08 import dim_of, joined, second
from checks.c12 import piece_parameters

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: derivatives are evaluated at symbolic states and times with hooks registered, removed and added in between. What each hook receives must equal the (symbolic) input of that evaluation, '
               'the derivatives it returns and the layer parameters it uses, and the derivatives must be those without hooks. What the recording hook stored must equal, at the end of the history and after later changes of the '
               'trainable values, the values at the time of recording; energies and norms must equal their definitions (singular values are uninterpreted functions of the entries beyond one row or column).')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM, cm.KINK]
OUTSIDE = 'recording for convolutional models (the supplied hook computes matrix norms); the tensorboard hook; more evaluations and hooks than listed'


def log_into(log, tag):
    def hook(*a):
        log.append((tag, a))
    return hook


def check_call(ctx, label, call, m, t, y, dy, P, data):
    mod, ht, s, c, d, ds, dc, dd, po, custom = call
    ctx.check(label + ' module', mod is m)
    ctx.check_eq(label + ' time', ht, t)
    for got, want, what in zip((s, c, d), m.disassemble_tensor(y), ('state', 'costate', 'data')):
        ctx.check_same('{} {}'.format(label, what), got, want)
    # derivatives carry the names of what they are the derivative of, or these with a prefix
    for got, want, what in zip((ds, dc, dd), m.disassemble_tensor(dy), ('state derivative', 'costate derivative', 'data derivative')):
        ctx.check('{} {} keys'.format(label, what), [(b, [k.replace('dot_', '') for k in got[b]]) for b in got] == [(b, list(want[b])) for b in want])
        for b in want:
            for k, v in zip(want[b], [got[b][k] for k in got[b]]):
                ctx.check_eq('{} {} {}'.format(label, what, k), v, want[b][k])
    got = cm.params_of(po)
    ctx.check(label + ' parameter names', {o: sorted(got[o]) for o in got} == {o: sorted(P[o]) for o in P})
    for o in P:
        for k in P[o]:
            ctx.check_eq('{} parameter {}.{}'.format(label, o, k), got[o][k].reshape(-1), P[o][k].reshape(-1))
    ctx.check(label + ' user data', custom is data)


def prepared(ctx, key, nl, Fe, K, N, infl, size, analytic, weighted, **kw):
    wkw, w = weights(ctx, key, weighted)
    S = cm.Solver(ctx)
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, infl=infl, size=size, use_analytic_solution=analytic, **dict(wkw, **kw))
    b(x=data_input(ctx, key, Fe, N, size))
    return m, S.calls[0]['x0'], w


def dispatch(ctx, key, nl='tanh', Fe=1, K=2, N=1, infl=2, size=None, analytic=False, rnn=False, weighted=True):
    m, x0, w = prepared(ctx, key, nl, Fe, K, N, infl, size, analytic, weighted, use_rnn_mode=rnn)
    n = dim_of(key)
    pts = []
    for i in range(4):
        y = ctx.tensor('y%d' % i, tuple(x0.shape), requires_grad=True)
        pts.append((ctx.tensor('t%d' % i, (), pos=True) if i else torch.zeros(()), y))
    log, custom = [], {'epoch': 3}
    plain = [m(t, y) for t, y in pts[:2]]
    ctx.check('nothing registered', not log)

    def P(i):
        s, c, _ = m.disassemble_tensor(pts[0][1] if rnn else pts[i][1])
        return cm.optimal_params(key, m, joined(s, n), joined(c, n), nl, w)

    def evaluate(i, tags, data, label):
        del log[:]
        t, y = pts[i]
        dy = m(t, y)
        ctx.check(label + ' hooks called', [g for g, _ in log] == tags)
        for g, a in log:
            check_call(ctx, '{} {}'.format(label, g), a, m, t, y, dy, P(i), data)
        return dy

    ha = m.register_lagrangian_gradient_hook(log_into(log, 'a'))
    ctx.check_eq('derivative unchanged 0', evaluate(0, ['a'], None, 'first'), plain[0])
    m.set_custom_hook_data(custom)
    hb = m.register_lagrangian_gradient_hook(log_into(log, 'b'))
    hc = m.register_lagrangian_gradient_hook(log_into(log, 'c'))
    ctx.check_eq('derivative unchanged 1', evaluate(1, ['a', 'b', 'c'], custom, 'second'), plain[1])
    evaluate(2, ['a', 'b', 'c'], custom, 'third')
    hb.remove()
    evaluate(0, ['a', 'c'], custom, 'fourth')
    hd = m.register_lagrangian_gradient_hook(log_into(log, 'b'))
    other = dict(custom)
    m.set_custom_hook_data(other)
    ha.remove()
    evaluate(3, ['c', 'b'], other, 'fifth')
    hc.remove()
    hd.remove()
    ctx.check_eq('derivative unchanged 2', evaluate(1, [], other, 'last'), plain[1])
    ctx.check('user data untouched', custom == {'epoch': 3} and other == {'epoch': 3})


def expected_record(rec, t, dicts, P):
    """what one evaluation adds to the record"""
    def put(k, v):
        rec.setdefault(k, []).append(v.detach().clone() if isinstance(v, torch.Tensor) else v)
    put('t', t)
    en = 0
    norms = {'frobenius': 0, 'nuclear': 0, 'spectral': 0}
    for o in P:
        for k in P[o]:
            v = P[o][k]
            put('{}.{}'.format(o, k), v)
            en = en + 0.5 * (v * v).sum()
            if k == 'bias':
                continue
            sv = torch.linalg.svdvals(v.detach())
            for nm, q in (('frobenius', (v * v).sum()), ('nuclear', sv.sum() ** 2), ('spectral', sv[0] ** 2)):
                put('sqr_{}_norm_{}.{}'.format(nm, o, k), q)
                norms[nm] = norms[nm] + q
    put('energy', en)
    for nm in norms:
        put('sum_sqr_{}_norm'.format(nm), norms[nm])
    for what, dd in dicts:
        for b in dd:
            for k in dd[b]:
                put('{}.{}.{}'.format(b, what, k), dd[b][k])


def record(ctx, key, nl='tanh', Fe=1, K=2, N=1, infl=2, analytic=False, mode=None, passes=2, evals=2, weighted=True, chain=False):
    """the recording hook over several integrations with training in between"""
    import neuro_shooting.shooting_hooks as sh
    wkw, w = weights(ctx, key, weighted and mode != 'direct')
    want = {}
    n = dim_of(key)

    def evaluate(i, func, x0, t):
        if func is not blocks[-1][1]:
            return
        m = func
        P = None
        for j in range(evals):
            tt = t[0] if j == 0 else ctx.tensor('t%d%d' % (i, j), (), pos=True)
            y = x0 if j == 0 else ctx.tensor('z%d%d' % (i, j), tuple(x0.shape), requires_grad=True)
            dy = func(tt, y)
            s, c, d = m.disassemble_tensor(y)
            ds, dc, dd = m.disassemble_tensor(dy)
            if mode == 'direct':
                P = piece_parameters(blocks[-1][0], 1, cm.default_param_shapes(m))[0]
            elif P is None or mode is None:
                P = cm.optimal_params(key, m, joined(s, n), joined(c, n), nl, w)
            dot = lambda g: sd({b: sd({'dot_' + k: v for k, v in g[b].items()}) for b in g})
            expected_record(want, tt, (('state', s), ('costate', c), ('data', d), ('dot_state', dot(ds)), ('dot_costate', dot(dc)), ('dot_data', dot(dd))), P)

    S = cm.Solver(ctx, evaluate=evaluate)
    kw = dict(use_analytic_solution=analytic, use_rnn_mode=mode == 'rnn', **wkw)
    if chain:
        a = cm.make_block(ctx, key, S, nl, Fe, K, infl=infl, name='a', **wkw)
        blocks = [a, second(ctx, key, S, nl, Fe, Fe, K, None, infl, 'b', own=False, **kw)]
    else:
        blocks = [cm.make_block(ctx, key, S, nl, Fe, K, infl=infl, block_kw=dict(use_particle_free_rnn_mode=True) if mode == 'direct' else None, **kw)]
    m = blocks[-1][1]
    data = defaultdict(list)
    handle = m.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    m.set_custom_hook_data(data)
    for r in range(passes):
        if r:
            for b, _ in blocks:
                for nm, v in b.named_parameters():
                    ctx.set_values(v, 'trained{}.{}'.format(r, nm))
        out = blocks[0][0](x=data_input(ctx, key, Fe, N, None, tag='x%d' % r))
        for b, _ in blocks[1:]:
            out = b(pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2], data_dict_of_dicts=out[3])
    handle.remove()
    # parameters trained further do not change the record
    for b, _ in blocks:
        for nm, v in b.named_parameters():
            ctx.set_values(v, 'final.{}'.format(nm))
    ctx.check('recorded names', sorted(data) == sorted(want))
    for k in want:
        ctx.check('number of records of ' + k, len(data[k]) == len(want[k]))
        for i, (g, e) in enumerate(zip(data[k], want[k])):
            e = ctx.terms(e).reshape(-1)
            g = ctx.terms(g).reshape(-1) if k in ('t', 'energy') or 'norm' in k else ctx.terms(g)
            if g.ndim > 1 and '.state.' in k or '.data.' in k:
                ctx.check('shape of {} {}'.format(k, i), g.shape == tuple(want[k][i].shape))
            ctx.check_eq('record {} {}'.format(k, i), g.reshape(-1), e)


def refuses(ctx, key, Fe=1, K=1):
    import neuro_shooting.shooting_hooks as sh
    m, x0, _ = prepared(ctx, key, 'tanh', Fe, K, 1, 2, None, False, False)
    m.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    y = ctx.tensor('y', tuple(x0.shape), requires_grad=True)
    t = ctx.tensor('t', ())
    ctx.raises('no record', ValueError, m, t, y)
    m.set_custom_hook_data({})
    ctx.raises('record of the wrong kind', ValueError, m, t, y)


def cases(tier):
    big = tier != 'quick'
    lim = {'generic': True}
    yield Case('dampened-hooks', dispatch, '6 evaluations, 4 hooks', lim, key='dampened')
    yield Case('dampened-record', record, '2 integrations x 2 evaluations', lim, key='dampened')
    for key in cm.MODELS:
        M = cm.MODELS[key]
        kw = dict(key=key, size=(1, 2) if M.conv else None)
        K = 1 if M.conv else 2
        yield Case(key + '-hooks', dispatch, '6 evaluations, 4 hooks', lim, K=K, **kw)
        yield Case(key + '-hooks-rnn', dispatch, '6 evaluations, RNN mode', lim, K=K, rnn=True, **kw)
        if M.analytic:
            yield Case(key + '-hooks-analytic', dispatch, '6 evaluations, hand-derived equations', lim, analytic=True, nl='sigmoid', **kw)
        if not M.conv:
            yield Case(key + '-record', record, '2 integrations x 2 evaluations', lim, key=key)
            yield Case(key + '-record-rnn', record, '2 integrations x 2 evaluations, RNN mode', lim, key=key, mode='rnn', nl='relu')
            yield Case(key + '-record-direct', record, '2 integrations x 2 evaluations, directly optimised', lim, key=key, mode='direct')
            yield Case(key + '-record-chain', record, 'pass-through block', lim, key=key, chain=True, passes=1)
            if key in ('simple', 'updown', 'universal'):
                yield Case(key + '-record-matrix', record, '2x2 and larger layers', lim, key=key, Fe=2, K=1, passes=1, infl=2, mode='direct')
            if M.analytic:
                yield Case(key + '-record-analytic', record, 'hand-derived equations', lim, key=key, analytic=True, passes=1, nl='sigmoid')
            if big:
                yield Case(key + '-record-big', record, '3 integrations x 4 evaluations, 2 features, 3 particles, 2 samples', lim, key=key, passes=3, evals=4, Fe=2, K=3, N=2)
                yield Case(key + '-record-direct-big', record, '3 integrations x 3 evaluations, 3 features', lim, key=key, passes=3, evals=3, Fe=3, infl=2, mode='direct')
    yield Case('refuses', refuses, 'missing or unsuitable record', lim, key='simple')
