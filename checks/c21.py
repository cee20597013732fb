"""C21: freezing touches exactly the named parameters; counts are exact."""
import itertools
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.c07 import data_input
from checks.c08 import second

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: which parameters are frozen before, which are named, and all parameter values are symbolic; every combination is explored. Afterwards exactly the named ones must have the requested status, all values '
               'must be unchanged, and the reported counts must be the sums of the sizes.')
ASSUMPTIONS = [cm.ARITH, cm.RANDOM]
OUTSIDE = 'other models and sizes than listed; printing'


class Holder(torch.nn.Module):
    def __init__(self, shapes):
        super().__init__()
        for i, s in enumerate(shapes):
            self.register_parameter('w%d' % i, torch.nn.Parameter(torch.zeros(s)))
        self.inner = torch.nn.Linear(2, 1)
        self.register_buffer('buf', torch.zeros(3))


class Named(torch.nn.Module):
    """names that contain each other"""
    def __init__(self):
        super().__init__()
        for n in ('q1', 'q1_a', 'q10', 'p_q1', 'xq1', 'q', 'Q1'):
            self.register_parameter(n, torch.nn.Parameter(torch.zeros(len(n))))
        self.inner = torch.nn.Module()
        for n in ('q1', 'q'):
            self.inner.register_parameter(n, torch.nn.Parameter(torch.zeros(len(n) + 1)))


def model(ctx, kind, Fe, K):
    if kind == 'names':
        return Named()
    if kind == 'many':
        return Holder([(1 + i % 3,) for i in range(14)])
    if kind == 'holder':
        return Holder([(), (1,), (2, 3), (2, 0)])
    if kind == 'shared':
        h = Holder([(2,)])
        h.also = h.inner
        return h
    S = cm.Solver(ctx)
    if kind == 'direct':
        b, m = cm.make_block(ctx, 'updown', S, 'tanh', Fe, K, symbolic=False, block_kw=dict(use_particle_free_rnn_mode=True))
        return b
    if kind == 'chain':
        b1, _ = cm.make_block(ctx, 'simple', S, 'tanh', Fe, K, name='a', symbolic=False)
        b2, _ = cm.make_block(ctx, 'updown', S, 'tanh', Fe, K, name='b', symbolic=False)
        return torch.nn.Sequential(b1, b2)
    b, m = cm.make_block(ctx, kind, S, 'tanh', Fe, K, symbolic=False, size=(2, 1) if cm.MODELS[kind].conv else None)
    return b


def freezing(ctx, kind, Fe=1, K=2, limit=4, experiment=None):
    import neuro_shooting.utils as ut
    ways = ((ut.freeze_parameters, False), (ut.unfreeze_parameters, True))
    if experiment:
        ways = ((cm.demo(experiment).freeze_parameters, False),)
    mod = model(ctx, kind, Fe, K)
    ps = list(mod.named_parameters())
    cm.symbolic_parameters(ctx, mod, 'p')
    state, before = {}, {}
    for i, (n, p) in enumerate(ps):
        # all combinations for the first few, the others alternate
        state[n] = ctx.boolean('trainable%d' % i) if i < limit else i % 2 == 0
        p.requires_grad = state[n]
        before[n] = p.detach().clone()

    def consistent(label):
        for n, p in mod.named_parameters():
            ctx.check('{} {} status'.format(label, n), p.requires_grad == state[n])
            ctx.check_eq('{} {} value'.format(label, n), p, before[n])
        sizes = {n: before[n].numel() for n in before}
        want = {'fixed': sum(v for n, v in sizes.items() if not state[n]), 'optimized': sum(v for n, v in sizes.items() if state[n])}
        want['overall'] = want['fixed'] + want['optimized']
        got = ut.compute_number_of_parameters(mod)
        ctx.check(label + ' counts', {k: int(v) for k, v in got.items()} == want and all(v == int(v) for v in got.values()))
        ctx.check(label + ' parameters kept', [n for n, _ in mod.named_parameters()] == [n for n, _ in ps] and all(a is b for (_, a), (_, b) in zip(mod.named_parameters(), ps)))

    consistent('before')
    for r, (fn, val) in enumerate(ways):
        named = [n for i, (n, _) in enumerate(ps) if (ctx.boolean('named%d%d' % (r, i)) if i < limit - 1 else i % 3 == r)]
        arg = list(reversed(named))
        fn(mod, arg)
        ctx.check('list unchanged', arg == list(reversed(named)))
        for n in named:
            state[n] = val
        consistent('after %d' % r)
    fn(mod, [])
    consistent('nothing named')


def names(ctx, kind):
    """any one of the parameters, or all of them, with all others the other way"""
    import neuro_shooting.utils as ut
    for fn, val in ((ut.freeze_parameters, False), (ut.unfreeze_parameters, True), (cm.demo('cc').freeze_parameters, False)):
        mod = model(ctx, kind, 1, 2)
        ps = list(mod.named_parameters())
        every = ctx.boolean('all')
        i = None
        if not every:
            i = next((j for j in range(len(ps) - 1) if ctx.boolean('which%d' % j)), len(ps) - 1)
        named = [n for j, (n, _) in enumerate(ps) if every or j == i]
        for n, p in ps:
            p.requires_grad = not val
        fn(mod, named)
        for n, p in ps:
            ctx.check('{} status'.format(n), p.requires_grad == (val if n in named else not val))


def counts(ctx, kind, Fe=1, K=2, printed=True):
    """with the print-out asked for"""
    import neuro_shooting.utils as ut
    mod = model(ctx, kind, Fe, K)
    st = {}
    for i, (n, p) in enumerate(mod.named_parameters()):
        p.requires_grad = st[n] = ctx.boolean('trainable%d' % i)
    got = ut.compute_number_of_parameters(mod, print_parameters=printed)
    n1 = sum(p.numel() for n, p in mod.named_parameters() if st[n])
    n0 = sum(p.numel() for n, p in mod.named_parameters() if not st[n])
    ctx.check('counts', (got['fixed'], got['optimized'], got['overall']) == (n0, n1, n0 + n1))


def cases(tier):
    lim = {'max_paths': 8000}
    big = tier != 'quick'
    for kind in ('simple', 'updown', 'conv', 'holder', 'shared', 'direct', 'chain'):
        for Fe, K in ((1, 2), (2, 3)):
            yield Case('{}-{}-{}'.format(kind, Fe, K), freezing, 'arbitrary status and choice of up to {} parameters'.format(4 if big else 3), lim, kind=kind, Fe=Fe, K=K, limit=4 if big else 3)
        yield Case(kind + '-counts', counts, 'arbitrary status', lim, kind=kind)
    for kind in ('names', 'many', 'updown', 'chain'):
        yield Case(kind + '-one', names, 'any one parameter named, or all', lim, kind=kind)
    for kind in ('names', 'many'):
        yield Case(kind + '-several', freezing, 'names that contain each other; many parameters', lim, kind=kind, limit=4 if big else 3)
    for kind in ('simple', 'updown', 'holder'):
        yield Case(kind + '-experiment', freezing, 'freezing of the concentric circles experiment', lim, kind=kind, limit=3, experiment='cc')
