"""C31: saved parameters restore a block completely."""
import copy
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c07 import data_input
from checks.c08 import second
from checks.c09 import block as enlarging, received, data_for
from checks.c15 import OPTIMISED

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: a block with arbitrary symbolic parameters, and a second one of the same configuration with other arbitrary parameters (and integrations behind it), are compared after loading the saved '
               'parameters of the first into the second (or after copying the first): what is handed to the solver, the derivatives at the start and at further symbolic times and states, the norm penalty and the results must be equal '
               'for all values, before and after both receive the same further parameter values; changing one must not change the other.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM]
OUTSIDE = 'larger sizes and longer histories than listed; writing the dictionary to disk (torch.save); replacing parameters instead of copying into them (assign=True); copies of a block after an integration (autograd refuses them)'

MODES = {
    'particles': {},
    'direct': dict(use_particle_free_rnn_mode=True),
    'pieces': dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=3),
    'zero': dict(keep_initial_state_parameters_at_zero=True),
}


class Probe(cm.Solver):
    """evaluates the derivative at the start and at one further state; the same symbolic states whichever block asks"""

    def __init__(self, ctx):
        super().__init__(ctx, trajectory=self.answer)
        self.seen = []

    def answer(self, n, func, x0, t):
        z = self.ctx.tensor('z', tuple(x0.shape))
        late = func(torch.tensor(0.7), z) if self.late else None
        d = func(t[0], x0)
        if late is None:
            late = func(torch.tensor(0.7), z)
        self.seen.append((x0, d, late))
        return torch.stack([x0 + i * d for i in range(len(t))])

    late = False


def same(ctx, label, a, A, b, B, everything):
    """what happened during an integration; particles are only carried along, untrained, when layers are optimised directly"""
    for what, u, v in zip(('start', 'derivative', 'later derivative'), A, B):
        if everything:
            ctx.check_eq('{}: {}'.format(label, what), v.detach(), u.detach())
        else:
            ctx.check_same('{}: {}'.format(label, what), detached(b.shooting_integrand.disassemble_tensor(v)[2]), detached(a.shooting_integrand.disassemble_tensor(u)[2]))


def compare(ctx, label, a, b, everything=True, **inputs):
    """both blocks are given the same; they must do the same"""
    ra, rb = a(**inputs), b(**inputs)
    same(ctx, label, a, a.integrator.seen[-1], b, b.integrator.seen[-1], everything)
    ctx.check_eq(label + ': output', rb[0].detach(), ra[0].detach())
    for what, u, v in zip(('states', 'costates', 'data'), ra[1:], rb[1:]):
        if everything or what == 'data':
            ctx.check_same('{}: {}'.format(label, what), detached(v), detached(u))
    pa, pb = a.get_norm_penalty(), b.get_norm_penalty()
    ctx.check(label + ': penalty', (pa is None) == (pb is None))
    if pa is not None:
        ctx.check_eq(label + ': penalty', pb.detach().reshape(()), pa.detach().reshape(()))


def detached(dd):
    return sd({n: sd({k: v.detach() for k, v in dd[n].items()}) for n in dd})


def values(b):
    return {n: p.detach().clone() for n, p in b.named_parameters()}


def change(ctx, b, tag):
    for n, p in b.named_parameters():
        ctx.set_values(p, tag + n)


def independent(ctx, a, b):
    """changing one leaves the other as it is"""
    before = values(a)
    change(ctx, b, 'changed.')
    for n, v in values(a).items():
        ctx.check_eq('other block: ' + n, v, before[n])


def load(ctx, a, b):
    saved = a.state_dict()
    ctx.check('same entries', set(saved) == set(b.state_dict()))
    ctx.check('every parameter is saved', set(n for n, _ in a.named_parameters()) <= set(saved))
    saved = type(saved)((k, v.clone()) for k, v in saved.items())
    b.load_state_dict(saved)
    # later changes of what was saved do not matter
    return saved


def restored(ctx, key, mode='particles', nl='tanh', Fe=1, K=2, N=2, infl=2, size=None, before=0, optimiser=False, late=False, option=None, rnn=False, times=False, dtype=None, kw=None):
    mk = lambda tag: cm.make_block(ctx, key, Probe(ctx), nl, Fe, K, infl=infl, size=size, name='blk', block_kw=dict(MODES[mode]), symbolic=False, use_rnn_mode=rnn,
                                   **dict(kw or {}, **({} if option is None else dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=option))))[0]
    a, b = mk('a'), mk('b')
    ev = mode not in ('direct', 'pieces')
    change(ctx, a, 'a.')
    change(ctx, b, 'b.')
    ctx.check('something is trained', len(list(a.named_parameters())) > 0)
    for blk in (a, b):
        blk.integrator.late = late
        if times:
            blk.set_integration_time_vector(torch.tensor([0., 0.5, 2.]), suppress_warning=True)
    x = lambda r: data_input(ctx, key, Fe, N, size, tag='x%d' % r)
    for r in range(before):
        b(x=x(r))
    load(ctx, a, b)
    compare(ctx, 'restored', a, b, ev, x=x(5))
    # the restored values are the ones used and trained from now on
    change(ctx, a, 'again.')
    change(ctx, b, 'again.')
    compare(ctx, 'trained on', a, b, ev, x=x(6))
    independent(ctx, a, b)
    independent(ctx, b, a)
    # and restoring once more, after both went their own ways
    load(ctx, b, a)
    compare(ctx, 'restored again', b, a, ev, x=x(7))


def copied(ctx, key, mode='particles', nl='tanh', Fe=1, K=2, N=2, infl=2, size=None, option=None):
    a, _ = cm.make_block(ctx, key, Probe(ctx), nl, Fe, K, infl=infl, size=size, name='blk', block_kw=dict(MODES[mode]), symbolic=False,
                         **({} if option is None else dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=option)))
    change(ctx, a, 'a.')
    solver = a.integrator
    # the solver stands in for one without state: it is shared
    b = copy.deepcopy(a, {id(solver): solver, id(ctx): ctx})
    x = lambda r: data_input(ctx, key, Fe, N, size, tag='x%d' % r)
    ctx.check('same parameters', [n for n, _ in a.named_parameters()] == [n for n, _ in b.named_parameters()])
    ra = a(x=x(0)), solver.seen[-1]
    rb = b(x=x(0)), solver.seen[-1]
    same(ctx, 'copy', a, ra[1], b, rb[1], True)
    ctx.check_eq('copy: output', rb[0][0].detach(), ra[0][0].detach())
    independent(ctx, a, b)
    change(ctx, a, 'changed.')
    a(x=x(1))
    u = solver.seen[-1]
    b(x=x(1))
    v = solver.seen[-1]
    same(ctx, 'copy trained on', a, u, b, v, True)


def enlarged(ctx, key, frm=(1, 1, 2), to=(1, 2, 3), infl=1, names=('a',), chans=(1,), own=1, zero=False):
    """a block that enlarges what it receives; its enlargement exists once it has been integrated"""
    total = sum(chans) + own
    kw = dict(keep_initial_state_parameters_at_zero=True) if zero else {}
    made = []
    for tag in 'ab':
        b, _ = enlarging(ctx, key, Probe(ctx), 'tanh', own, total, to[0], to[1:], infl, 'c', **kw)
        made.append(b)
    a, b = made
    inp = {}
    for r in range(3):
        s, c = received(ctx, key, 'r%d' % r, names, frm[0], chans, frm[1:], infl)
        inp[r] = dict(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=data_for(ctx, key, 'r%d' % r, names, chans, to[1:], infl))
    for blk, tag in ((a, 'a.'), (b, 'b.')):
        blk(**inp[0])
        change(ctx, blk, tag)
    load(ctx, a, b)
    compare(ctx, 'restored', a, b, **inp[1])
    change(ctx, a, 'again.')
    change(ctx, b, 'again.')
    compare(ctx, 'trained on', a, b, **inp[2])
    independent(ctx, a, b)
    independent(ctx, b, a)


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for key in cm.MODELS:
        M = cm.MODELS[key]
        kw = dict(key=key, size=(1, 2) if M.conv else None, K=1 if M.conv else 2)
        for mode in MODES:
            yield Case('{}-{}'.format(key, mode), restored, 'a fresh block', lim, mode=mode, **kw)
            yield Case('{}-{}-used'.format(key, mode), restored, 'a block with an integration behind it', lim, mode=mode, before=1, nl='relu', **kw)
            yield Case('{}-{}-copied'.format(key, mode), copied, 'a copied block', lim, mode=mode, **kw)
            if big:
                yield Case('{}-{}-late'.format(key, mode), restored, 'after 3 integrations, first evaluated away from the start', lim, mode=mode, before=3, late=True, times=True, nl='sigmoid', **kw)
        yield Case(key + '-rnn', restored, 'RNN mode, after an integration', lim, rnn=True, before=1, **kw)
        yield Case(key + '-times', restored, '3 times', lim, times=True, before=1, **kw)
        if M.analytic:
            yield Case(key + '-analytic', restored, 'hand-derived equations', lim, before=1, kw=dict(use_analytic_solution=True), **kw)
        if key in OPTIMISED:
            for o in ('direct', 'linear', 'mini_nn'):
                if o == 'direct' and M.conv:
                    continue
                for mode in ('particles', 'direct') + (('pieces', 'zero') if big else ()):
                    yield Case('{}-{}-{}'.format(key, mode, o), restored, 'initial condition ' + o, lim, mode=mode, option=o, before=1, **kw)
                yield Case('{}-{}-copied'.format(key, o), copied, 'a copied block, initial condition ' + o, lim, option=o, **kw)
        if M.conv:
            infl = 2 if key == 'updownconv' else 1
            for n, (names, chans) in {'one': (('a',), (1,)), 'two': (('a', 'b'), (1, 2)), 'names': (('z.1', 'b'), (1, 1))}.items():
                yield Case('{}-enlarged-{}'.format(key, n), enlarged, 'enlarging received states', lim, key=key, infl=infl, names=names, chans=chans)
            yield Case(key + '-enlarged-zero', enlarged, 'enlarging received states, kept at zero', lim, key=key, infl=infl, zero=True)
    yield Case('dampened', restored, 'learned dampening states', lim, key='dampened', Fe=1, before=1)
