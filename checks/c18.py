"""C18: the learning rate is reduced exactly when progress stalls."""
import copy
import itertools
import torch
from symtorch.runner import Case
from checks import common as cm

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the scheduler is driven by histories of symbolic metric values (with symbolic rates, factor, threshold, minimal rates and minimal decay). On every feasible path the rates of all groups, the reported '
               'convergence and the point at which a reduction happens must be those of the stated rule, written out independently over the history. Restored schedulers must continue identically.')
ASSUMPTIONS = [cm.ARITH, 'metric values are finite; relative thresholds lie strictly between 0 and 1']
OUTSIDE = 'longer histories, larger patience and cool-down, more parameter groups than listed per case; non-finite metrics; messages'


class Rule(object):
    """the stated rule, over the history of metric values"""

    def __init__(self, mode, tmode, th, factor, patience, cooldown, mins, eps, lrs):
        self.__dict__.update(mode=mode, tmode=tmode, th=th, factor=factor, patience=patience, cooldown=cooldown, mins=mins, eps=eps, lrs=list(lrs))
        self.best, self.stalled, self.wait, self.converged = None, 0, 0, False

    def improves(self, v):
        if self.best is None:
            return True
        s = 1 if self.mode == 'max' else -1
        bound = self.best + s * self.th if self.tmode == 'abs' else self.best * (1 + s * self.th)
        return bool(v > bound) if s > 0 else bool(v < bound)

    def step(self, v):
        if self.improves(v):
            self.best, self.stalled = v, 0
        else:
            self.stalled += 1
        if self.wait:
            self.wait -= 1
            self.stalled = 0
        if self.stalled <= self.patience:
            return
        reduced = False
        for i, lr in enumerate(self.lrs):
            new = lr * self.factor
            if new < self.mins[i]:
                new = self.mins[i]
            if lr - new > self.eps:
                self.lrs[i] = new
                reduced = True
            else:
                self.converged = True
        self.stalled, self.wait = 0, self.cooldown
        if reduced:
            self.best = None


def optimiser(lrs):
    ps = [torch.nn.Parameter(torch.zeros(1)) for _ in lrs]
    o = torch.optim.SGD([{'params': [p]} for p in ps], lr=1.0)
    for g, lr in zip(o.param_groups, lrs):
        g['lr'] = lr
    return o


def settings(ctx, tmode, free, groups):
    if free:
        th = ctx.scalar('threshold', pos=True, sample=0.125)
        factor = ctx.scalar('factor', pos=True, sample=0.5)
        eps = ctx.scalar('eps', pos=True, sample=0.0625)
        ctx.assume(factor < 1)
        if tmode == 'rel':
            ctx.assume(th < 1)
    else:
        th, factor, eps = 0.125, 0.5, 0.0625
    mins = [ctx.scalar('min%d' % i, pos=True, sample=0.125) for i in range(groups)]
    lrs = [ctx.scalar('lr%d' % i, pos=True, sample=1.0 + i) for i in range(groups)]
    return th, factor, eps, mins, lrs


def value(ctx, i, tensors):
    return ctx.tensor('m%d' % i, ()) if tensors else ctx.scalar('m%d' % i)


def compare(ctx, label, sched, opt, rule):
    ctx.check(label + ' convergence', bool(sched.has_convergence_been_reached()) == rule.converged)
    for g, lr in enumerate(rule.lrs):
        ctx.check_eq('{} rate of group {}'.format(label, g), opt.param_groups[g]['lr'], lr)


def history(ctx, mode, tmode, patience, cooldown, steps, groups=1, free=True, shared_min=False, tensors=False, restore=None, epochs=False, fixed_rates=False):
    import neuro_shooting.custom_lr_scheduler as ls
    ctx.symbolic_float(ls)
    th, factor, eps, mins, lrs = settings(ctx, tmode, free, groups)
    if shared_min:
        mins = [mins[0]] * groups
    if fixed_rates:
        mins, lrs = [0.125] * groups, [1.0] * groups
    opt = optimiser(lrs)
    kw = dict(mode=mode, factor=factor, patience=patience, threshold=th, threshold_mode=tmode, cooldown=cooldown, min_lr=mins[0] if shared_min else list(mins), eps=eps)
    sched = ls.CustomReduceLROnPlateau(opt, **kw)
    rule = Rule(mode, tmode, th, factor, patience, cooldown, mins, eps, lrs)
    compare(ctx, 'start', sched, opt, rule)
    for i in range(steps):
        if restore is not None and i == restore:
            # continue with another scheduler, set up differently, that takes over the saved state
            saved = sched.state_dict()
            opt2 = optimiser([g['lr'] for g in opt.param_groups])
            other = ls.CustomReduceLROnPlateau(opt2, mode='max' if mode == 'min' else 'min', factor=0.75, patience=7, threshold=0.5, threshold_mode='abs' if tmode == 'rel' else 'rel', cooldown=5, min_lr=0.25, eps=0.5)
            other.load_state_dict(saved)
            # the first one goes on with something else and must not disturb the second
            for k in range(2):
                sched.step(ctx.scalar('stray%d' % k))
            sched, opt = other, opt2
        v = value(ctx, i, tensors)
        if epochs:
            sched.step(v, epoch=10 * i)
        else:
            sched.step(v)
        rule.step(ctx.term(v) if tensors and ctx.symbolic else v)
        compare(ctx, 'step {}'.format(i), sched, opt, rule)


def refuses(ctx):
    import neuro_shooting.custom_lr_scheduler as ls
    opt = optimiser([1.0, 1.0])
    C = ls.CustomReduceLROnPlateau
    f = ctx.scalar('f', pos=True, sample=1.5)
    if f >= 1:
        ctx.raises('factor not below 1', ValueError, C, opt, factor=f)
    else:
        C(opt, factor=f)
    ctx.raises('factor 1', ValueError, C, opt, factor=1.0)
    ctx.raises('not an optimiser', TypeError, C, [torch.zeros(1)])
    ctx.raises('mode', ValueError, C, opt, mode='auto')
    ctx.raises('threshold mode', ValueError, C, opt, threshold_mode='relative')
    for bad in ([0.1], (0.1, 0.1, 0.1), []):
        ctx.raises('minimal rates', ValueError, C, opt, min_lr=bad)
    C(opt, min_lr=(0.1, 0.1))
    ctx.check('accepted', True)


def cases(tier):
    big = tier != 'quick'
    lim = {'max_paths': 3000}
    for mode, tmode in itertools.product(('min', 'max'), ('rel', 'abs')):
        n = '{}-{}'.format(mode, tmode)
        for patience in (0, 1, 2):
            for cooldown in (0, 1, 2):
                steps = min(patience + cooldown + 4 + (patience < 2), 7) + (2 if big else 0)
                yield Case('{}-{}-{}'.format(n, patience, cooldown), history, '{} steps, symbolic metrics'.format(steps), lim,
                           mode=mode, tmode=tmode, patience=patience, cooldown=cooldown, steps=steps, free=False, fixed_rates=True)
        for patience, cooldown, steps in ((5, 0, 8), (0, 5, 8), (4, 3, 8)) + (((10, 0, 12),) if big else ()):
            yield Case('{}-long-{}-{}'.format(n, patience, cooldown), history, '{} steps, symbolic metrics'.format(steps), lim, mode=mode, tmode=tmode, patience=patience, cooldown=cooldown, steps=steps, free=False, fixed_rates=True)
        yield Case(n + '-free', history, '3 steps, all settings symbolic', lim, mode=mode, tmode=tmode, patience=0, cooldown=0, steps=3)
        yield Case(n + '-free-patience', history, '4 steps, all settings symbolic, patience 1', lim, mode=mode, tmode=tmode, patience=1, cooldown=1, steps=4)
        yield Case(n + '-groups', history, '3 steps, 2 groups, rates symbolic', lim, mode=mode, tmode=tmode, patience=0, cooldown=0, steps=3, groups=2, free=False)
        yield Case(n + '-groups-shared', history, '3 steps, 2 groups, one minimal rate', lim, mode=mode, tmode=tmode, patience=0, cooldown=1, steps=4, groups=2, free=False, shared_min=True, epochs=True)
        yield Case(n + '-tensors', history, '4 steps, metrics are tensors', lim, mode=mode, tmode=tmode, patience=0, cooldown=1, steps=4, free=False, tensors=True)
        for r in (1, 2, 3):
            yield Case('{}-restore-{}'.format(n, r), history, 'saved and restored after step {}'.format(r), lim, mode=mode, tmode=tmode, patience=1, cooldown=1, steps=r + 3, free=False, fixed_rates=True, restore=r)
    yield Case('refuses', refuses, 'invalid settings', lim)
