"""C23: states kept at zero start at zero and are not optimised."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c07 import data_input
from checks.c08 import second
from checks.c09 import enlarge

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: blocks told to keep their states at zero are integrated repeatedly with symbolic costates and data, with real optimiser steps (on symbolic gradients) and arbitrary new parameter values in between. '
               'What is handed to the solver must have zero own states for all values, and exactly the costates (and the other trainable parts) may be registered. The border added to received states is checked as in C09.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM]
OUTSIDE = 'more steps, larger sizes, other optimisers than listed'


# dampening coefficients carried along as constant states: not positions, start at a constant
CONSTANT = {'dampened': ('c1', 'c2')}


def expect_registered(ctx, label, key, b, kept, extra=()):
    names = set(cm.own(b))
    st = cm.MODELS[key].states
    want = {'p_' + k for k in st} | (set() if kept else set(st)) | set(extra)
    ctx.check(label + ': registered', names == want)
    ctx.check(label + ': trainable', all(p.requires_grad for p in cm.own(b).values()))


def starts(ctx, key, m, b, kept, label, S, name='blk'):
    gs, gc, _ = m.disassemble_tensor(S.calls[-1]['x0'])
    own = cm.own(b)
    ctx.check(label + ': has own particles', name in gs)
    for k in gs[name]:
        if kept and k in CONSTANT.get(key, ()):
            continue
        want = torch.zeros_like(gs[name][k]) if kept else own[k]
        ctx.check_eq('{}: state {}'.format(label, k), gs[name][k], want)
    for k in gc[name]:
        ctx.check_eq('{}: costate {}'.format(label, k), gc[name][k], own[k])


def euler(n, func, x0, t):
    y1 = x0 + 0.5 * func(t[0], x0)
    y2 = y1 + 0.5 * func(t[0] + 0.5, y1)
    return torch.stack([x0, y2]) if len(t) == 2 else torch.stack([x0] + [y2] * (len(t) - 1))


def training(ctx, key, nl='tanh', Fe=1, K=2, N=1, infl=2, size=None, kept=True, analytic=False, rnn=False, steps=2, one_step=False, opt='sgd', **bk):
    """real integration steps and a real optimiser in between"""
    S = cm.Solver(ctx, trajectory=(lambda n, f, x0, t: torch.stack([x0, x0 + f(t[0], x0)])) if one_step else euler)
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, infl=infl, size=size, use_analytic_solution=analytic, use_rnn_mode=rnn, block_kw=dict(dict(keep_initial_state_parameters_at_zero=True) if kept else {}, **bk))
    expect_registered(ctx, 'created', key, b, kept)
    o = None
    for r in range(steps):
        out = b(x=data_input(ctx, key, Fe, N, size, tag='x%d' % r))
        starts(ctx, key, m, b, kept, 'integration %d' % r, S)
        expect_registered(ctx, 'integration %d' % r, key, b, kept)
        if r == steps - 1:
            break
        if o is None:
            o = torch.optim.SGD(list(b.parameters()), lr=0.125) if opt == 'sgd' else torch.optim.SGD(list(b.parameters()), lr=0.25, weight_decay=0.5)
        o.zero_grad()
        loss = (ctx.tensor('w%d' % r, tuple(out[0].shape)) * out[0]).sum() + b.get_norm_penalty().sum()
        for dd in out[1:3]:
            for n in dd:
                for k in dd[n]:
                    loss = loss + dd[n][k].sum()
        loss.backward()
        o.step()


def arbitrary(ctx, key, nl='tanh', Fe=1, K=2, N=1, infl=2, size=None, kept=True, passes=3, dtype=None, meddle=False, **bk):
    """any solver result, any new parameter values in between"""
    S = cm.Solver(ctx)
    b, m = cm.make_block(ctx, key, S, nl, Fe, K, infl=infl, size=size, block_kw=dict(dict(keep_initial_state_parameters_at_zero=True) if kept else {}, **bk))
    extra = [n for n in cm.own(b) if not (n in cm.MODELS[key].states or n[2:] in cm.MODELS[key].states)]
    ctx.check('nothing more is registered', not extra or bool(bk))
    for r in range(passes):
        if r:
            for n, p in b.named_parameters():
                ctx.set_values(p, 'new%d.%s' % (r, n))
        out = b(x=data_input(ctx, key, Fe, N + r, size, tag='x%d' % r))
        starts(ctx, key, m, b, kept, 'integration %d' % r, S)
        if meddle:
            # the caller may do with the results what it likes
            with torch.no_grad():
                for dd in out[1:]:
                    for n in dd:
                        for k in dd[n]:
                            dd[n][k].add_(1.0)
        extra2 = [n for n in cm.own(b) if n not in extra]
        st = cm.MODELS[key].states
        ctx.check('registered %d' % r, set(extra2) >= {'p_' + k for k in st} and (not kept or not set(extra2) & set(st)))


def chained(ctx, key, nl='tanh', Fe=1, K=2, infl=2, size=None, passes=2):
    """a second block with own particles kept at zero after a first one with trainable ones, and the reverse"""
    for first, tag in ((False, 'f'), (True, 't')):
        S = cm.Solver(ctx, tag='y' + tag)
        z = lambda v: dict(keep_initial_state_parameters_at_zero=True) if v else {}
        b1, m1 = cm.make_block(ctx, key, S, nl, Fe, K, infl=infl, size=size, name='a' + tag, block_kw=z(first))
        b2, m2 = second(ctx, key, S, nl, Fe, Fe, K, size, infl, 'b' + tag, own=True, block_kw=z(not first))
        for r in range(passes):
            if r:
                for b in (b1, b2):
                    for n, p in b.named_parameters():
                        ctx.set_values(p, '{}new{}.{}'.format(tag, r, n))
            out = b1(x=data_input(ctx, key, Fe, 1, size, tag='x%s%d' % (tag, r)))
            starts(ctx, key, m1, b1, first, 'first %d' % r, S, 'a' + tag)
            b2(pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2], data_dict_of_dicts=out[3])
            starts(ctx, key, m2, b2, not first, 'second %d' % r, S, 'b' + tag)
            expect_registered(ctx, 'first', key, b1, first)
            expect_registered(ctx, 'second', key, b2, not first)


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for key in cm.MODELS:
        M = cm.MODELS[key]
        kw = dict(key=key, size=(1, 2) if M.conv else None, K=1 if M.conv else 2)
        yield Case(key + '-kept', arbitrary, '3 integrations with arbitrary results and new values', lim, **kw)
        yield Case(key + '-meddle', arbitrary, 'results changed in place by the caller', lim, meddle=True, passes=2, **kw)
        yield Case(key + '-free', arbitrary, 'without the option', lim, kept=False, **kw)
        yield Case(key + '-chained', chained, 'two blocks, one of them kept at zero', lim, **kw)
        kt = dict(kw, K=1, infl=1)
        yield Case(key + '-training', training, '2 integrations with an optimiser step between', lim, one_step=True, **kt)
        yield Case(key + '-training-free', training, 'the same without the option', lim, one_step=True, kept=False, **kt)
        if M.analytic:
            yield Case(key + '-training-analytic', training, 'hand-derived equations, weight decay', lim, one_step=True, analytic=True, opt='decay', **kt)
        if not M.conv:
            yield Case(key + '-many', arbitrary, '4 integrations, 10 particles, 2 features', lim, key=key, K=10, Fe=2, passes=4)
            yield Case(key + '-training-rnn', training, 'RNN mode', lim, one_step=True, rnn=True, **kt)
        else:
            for names, chans, tag in ((('a',), (1,), 'one'), (('a', 'b'), (1, 2), 'two')):
                yield Case('{}-border-{}'.format(key, tag), enlarge, 'border of received states, 3 integrations', lim, key=key, frm=(1, 1, 2), to=(1, 2, 3), infl=2 if key == 'updownconv' else 1, names=names, chans=chans, zero=True, repeat=3)
        if big:
            yield Case(key + '-training-two', training, '2 integrations of 2 Euler steps with an optimiser step between', lim, **kt)
            if not M.conv:
                yield Case(key + '-big', arbitrary, '5 integrations, 3 particles, 3 features', lim, key=key, K=3, Fe=3, passes=5)
    for kept in (True, False):
        yield Case('dampened-kept-%s' % kept, arbitrary, 'learned dampening states', lim, key='dampened', Fe=1, K=2, kept=kept, passes=2)
