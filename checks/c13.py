"""C13: parameter-free layers compute what their torch counterparts compute."""
import torch
import torch.nn as nn
import torch.nn.functional as F
from torch.func import functional_call
from symtorch.runner import Case
from checks import common as cm

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: every layer class is given symbolic parameters and inputs and its real forward function must equal the corresponding torch layer evaluated with those parameters (and '
               'an independent formula for normalisation); gradients likewise. Initial values are tied to torch\'s initialisation by making the latter fill in symbols.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM]
OUTSIDE = 'layer sizes and options beyond those listed per case; devices other than the CPU'


class Init(object):
    """torch's own initialisation fills in symbols while a layer is built"""

    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls

    def __enter__(self):
        self.old = self.cls.reset_parameters
        ctx = self.ctx

        def fill(module):
            for n in ('weight', 'bias'):
                v = module._parameters.get(n)
                if v is not None:
                    ctx.set_values(v, 'init.' + n)
        self.cls.reset_parameters = fill
        return self

    def __exit__(self, *a):
        self.cls.reset_parameters = self.old


def shapes_of(ref):
    return {n: tuple(p.shape) for n, p in ref.named_parameters()}


def layer(ctx, kind, opts, xshape, grad=True):
    import neuro_shooting.overwrite_classes as oc
    cls, base = {'linear': (oc.SNN_Linear, nn.Linear), 'damp': (oc.SNN_LinearDampening, nn.Linear), 'conv': (oc.SNN_Conv2d, nn.Conv2d), 'norm': (oc.SNN_GroupNorm, nn.GroupNorm)}[kind]
    with Init(ctx, base):
        L = cls(**opts)
        ref = base(**opts)
    shp = shapes_of(ref)
    P = L.get_parameter_dict()
    extra = ['dampening'] if kind == 'damp' else []
    ctx.check('stored parameters', sorted(P) == sorted(list(shp) + extra))
    ctx.check('stored sizes', all(tuple(P[n].shape) == shp[n] for n in shp))
    for n in shp:
        ctx.check_eq('initial ' + n, P[n], ctx.tensor('init.' + n, shp[n]))
    ctx.check('no trainable parameters of its own', not list(L.parameters()) and not list(L.named_parameters()))
    ctx.check('gradients can be taken', all(P[n].requires_grad for n in P))
    for rnd in range(2):
        x = ctx.tensor('x%d' % rnd, xshape, requires_grad=True)
        z = ctx.tensor('z%d' % rnd, dampshape(opts, xshape)) if kind == 'damp' else None
        if rnd:
            # what is stored is what is used: new tensors, as an integrand stores them
            for n in P:
                P[n] = ctx.tensor('new.' + n, tuple(P[n].shape), requires_grad=True)
        cur = {n: P[n] for n in P}
        y = L(x, z) if kind == 'damp' else L(x)
        x2 = x.detach().clone().requires_grad_(True)
        cur2 = {n: v.detach().clone().requires_grad_(True) for n, v in cur.items()}
        want = functional_call(ref, {n: cur2[n] for n in shp}, (x2,))
        if kind == 'damp':
            want = want - cur2['dampening'] * z
        if kind == 'norm':
            ctx.check_eq('formula {}'.format(rnd), y, normalised(x, opts, cur))
        ctx.check_eq('output {}'.format(rnd), y, want)
        if grad:
            w = ctx.tensor('w%d' % rnd, tuple(y.shape))
            ga = cm.grads((w * y).sum(), [x] + [cur[n] for n in sorted(cur)])
            gb = cm.grads((w * want).sum(), [x2] + [cur2[n] for n in sorted(cur)])
            for i, (u, v) in enumerate(zip(ga, gb)):
                ctx.check_eq('gradient {} {}'.format(rnd, i), u, v)


def dampshape(opts, xshape):
    return tuple(xshape[:-1]) + (opts['out_features'],)


def normalised(x, opts, P):
    G, C = opts['num_groups'], opts['num_channels']
    v = x.reshape((x.shape[0], G, -1))
    m = v.mean(dim=2, keepdim=True)
    s = ((v - m) ** 2).mean(dim=2, keepdim=True)
    v = ((v - m) / torch.sqrt(s + opts.get('eps', 1e-5))).reshape(tuple(x.shape))
    one = (1, C) + (1,) * (x.dim() - 2)
    if 'weight' in P:
        v = v * P['weight'].reshape(one) + P['bias'].reshape(one)
    return v


def convert(ctx, kind, opts, xshape, how):
    """type conversions reach what is stored and change no value"""
    import neuro_shooting.overwrite_classes as oc
    cls = {'linear': oc.SNN_Linear, 'damp': oc.SNN_LinearDampening, 'conv': oc.SNN_Conv2d, 'norm': oc.SNN_GroupNorm}[kind]
    w = ctx.tensor('weighting', (), pos=True)
    L = cls(weight=w, **opts)
    P = L.get_parameter_dict()
    for n in P:
        ctx.set_values(P[n], 'p.' + n)
    before = {n: P[n].detach().clone() for n in P}
    M = how(L)
    ctx.check('returns the layer', M is L)
    P = L.get_parameter_dict()
    ctx.check('same entries', sorted(P) == sorted(before))
    for n in P:
        ctx.check('type of ' + n, P[n].dtype == torch.float32)
        ctx.check_eq('value of ' + n, P[n], before[n])
    ctx.check('still no trainable parameters', not list(L.parameters()))
    ctx.check('gradients can be taken', all(P[n].requires_grad for n in P))
    x = ctx.tensor('x', xshape, dtype=torch.float32)
    if kind == 'damp':
        y = L(x, ctx.tensor('z', dampshape(opts, xshape), dtype=torch.float32))
    else:
        y = L(x)
    ctx.check('type of the output', y.dtype == torch.float32)


def weights(ctx, kind, opts):
    """weights of the parameters in the energy: one for all, or individually"""
    import neuro_shooting.overwrite_classes as oc
    cls = {'linear': oc.SNN_Linear, 'damp': oc.SNN_LinearDampening, 'conv': oc.SNN_Conv2d, 'norm': oc.SNN_GroupNorm}[kind]
    L = cls(**opts)
    ctx.check('no weights', all(v is None for v in L.get_parameter_weight_dict().values()))
    w, v = ctx.scalar('w', pos=True), ctx.scalar('v', pos=True)
    L = cls(weight=w, **opts)
    W = L.get_parameter_weight_dict()
    ctx.check('one weight per parameter', sorted(W) == sorted(L.get_parameter_dict()))
    for n in W:
        ctx.check_eq('weight of ' + n, W[n], w)
    names = sorted(W)
    if names:
        L.add_weight(names[0], v)
        W = L.get_parameter_weight_dict()
        ctx.check_eq('own weight', W[names[0]], v)
        for n in names[1:]:
            ctx.check_eq('weight of ' + n, W[n], w)
    ctx.raises('unknown parameter', (ValueError, KeyError), L.add_weight, 'nosuch', v)


def cases(tier):
    out = []
    big = tier == 'thorough'

    def add(n, kind, opts, xshape, **k):
        out.append(Case(n, layer, '{} input {}'.format(opts, xshape), {}, kind=kind, opts=opts, xshape=xshape, **k))
    for bias in (True, False):
        b = '' if bias else '-nobias'
        for i, o, xs in ((1, 1, (1,)), (2, 3, (2, 2)), (3, 2, (2, 1, 3)), (2, 2, (2,))):
            add('linear-{}-{}{}'.format(i, o, b), 'linear', dict(in_features=i, out_features=o, bias=bias), xs)
            add('damp-{}-{}{}'.format(i, o, b), 'damp', dict(in_features=i, out_features=o, bias=bias), xs)
        for mode in ('zeros', 'reflect', 'replicate', 'circular'):
            for j, o in enumerate((dict(padding=1), dict(padding=(1, 0)), dict(padding=(0, 1), stride=(1, 2)), dict(padding=1, stride=2, dilation=(1, 2)), dict(padding=(2, 1), kernel_size=(3, 1)), dict(padding=0), dict(padding='same'), dict(padding='valid'), dict(padding='same', kernel_size=2, dilation=2))):
                op = dict(in_channels=1, out_channels=2, kernel_size=2, padding_mode=mode, bias=bias)
                op.update(o)
                add('conv-{}-{}{}'.format(mode, j, b), 'conv', op, (1, 1, 3, 3), grad=(j < 3))
            add('conv-{}-groups{}'.format(mode, b), 'conv', dict(in_channels=2, out_channels=4, kernel_size=2, padding=1, groups=2, padding_mode=mode, bias=bias), (1, 2, 2, 2), grad=False)
            add('conv-{}-depthwise{}'.format(mode, b), 'conv', dict(in_channels=3, out_channels=3, kernel_size=2, padding=1, groups=3, padding_mode=mode, bias=bias), (1, 3, 2, 2), grad=False)
            add('conv-{}-channels{}'.format(mode, b), 'conv', dict(in_channels=2, out_channels=1, kernel_size=(1, 2), padding=(0, 1), padding_mode=mode, bias=bias), (2, 2, 2, 2))
            if big:
                add('conv-{}-big{}'.format(mode, b), 'conv', dict(in_channels=4, out_channels=6, kernel_size=3, padding=(1, 2), stride=(2, 1), dilation=(2, 1), groups=2, padding_mode=mode, bias=bias), (2, 4, 6, 5), grad=False)
    for affine in (True, False):
        a = '' if affine else '-plain'
        for j, (g, c, xs, o) in enumerate(((1, 1, (1, 1, 2), {}), (2, 2, (1, 2, 2), {}), (1, 2, (1, 2, 1, 2), {}), (2, 2, (2, 2, 1, 2), dict(eps=0.5)), (2, 4, (1, 4, 2), dict(eps=0.25)))):
            add('norm-{}{}'.format(j, a), 'norm', dict(num_groups=g, num_channels=c, affine=affine, **o), xs, grad=(j < 2))
    std = dict(linear=(dict(in_features=2, out_features=3), (2, 2)), damp=(dict(in_features=2, out_features=2), (1, 2)), conv=(dict(in_channels=1, out_channels=1, kernel_size=2), (1, 1, 2, 2)), norm=(dict(num_groups=1, num_channels=2), (1, 2, 2)))
    for kind, (o, xs) in std.items():
        for n, how in (('to', lambda m: m.to(torch.float32)), ('float', lambda m: m.float()), ('to-both', lambda m: m.to('cpu', torch.float32)), ('like', lambda m: m.to(torch.zeros(1, dtype=torch.float32)))):
            out.append(Case('convert-{}-{}'.format(kind, n), convert, 'double to single', {}, kind=kind, opts=o, xshape=xs, how=how))
        nb = dict(o, **(dict(affine=False) if kind == 'norm' else dict(bias=False)))
        out.append(Case('convert-{}-without'.format(kind), convert, 'double to single, no bias', {}, kind=kind, opts=nb, xshape=xs, how=lambda m: m.float()))
        out.append(Case('weights-' + kind, weights, 'any weights', {}, kind=kind, opts=o))
        out.append(Case('weights-{}-without'.format(kind), weights, 'any weights, no bias', {}, kind=kind, opts=nb))
    return out
