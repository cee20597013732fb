"""C01: every supported activation comes with its exact derivative."""
import torch
from symtorch.runner import Case
from checks import common as cm

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the activation and the derivative returned by the lookup are executed on symbolic '
               'tensors of every listed rank; the derivative is compared with (a) torch autograd of the returned activation and '
               '(b) the closed form of the named function, for all real inputs.')
ASSUMPTIONS = ['real arithmetic instead of floating point', 'relu: the kink x = 0 is excluded (measure zero, any subgradient is allowed)',
               'torch operators compute their mathematical definition']
OUTSIDE = 'tensors with more than 4 elements per rank listed; behaviour at the relu kink; floating-point rounding'

REF = {
    'identity': (lambda x: x, lambda x: x * 0 + 1),
    'relu': (lambda x: torch.where(x > 0, x, x * 0), lambda x: torch.where(x > 0, x * 0 + 1, x * 0)),
    'tanh': (lambda x: 1 - 2 / (torch.exp(2 * x) + 1), lambda x: 4 * torch.exp(2 * x) / (torch.exp(2 * x) + 1) ** 2),
    'sigmoid': (lambda x: 1 / (1 + torch.exp(-x)), lambda x: torch.exp(-x) / (1 + torch.exp(-x)) ** 2),
    'softmax': (lambda x: x / (1 + torch.exp(-x)),
                lambda x: 1 / (1 + torch.exp(-x)) + x * torch.exp(-x) / (1 + torch.exp(-x)) ** 2),
}


def pair(ctx, query, ref, shape):
    import neuro_shooting.activation_functions_and_derivatives as ad
    nl, dnl = ad.get_nonlinearity(query)
    x = ctx.tensor('x', shape, requires_grad=True)
    y = nl(x)
    g = grad_or_zero(y, x, True)
    d = dnl(x)
    ctx.check_eq('derivative-is-autograd', d, g)
    f, df = REF[ref]
    ctx.check_eq('value', y, f(x))
    ctx.check_eq('derivative', d, df(x))
    # the derivative is itself a differentiable function of the input (training differentiates through it)
    ctx.check_eq('second-derivative', grad_or_zero(d, x), grad_or_zero(df(x), x))


def grad_or_zero(y, x, again=False):
    g = torch.autograd.grad(y.sum(), x, allow_unused=True, create_graph=again)[0] if y.requires_grad else None
    return torch.zeros_like(x) if g is None else g


def steep(ctx, shape):
    """the smooth activation with an explicit steepness"""
    import neuro_shooting.activation_functions_and_derivatives as ad
    x = ctx.tensor('x', shape, requires_grad=True)
    e = ctx.tensor('eps', (), pos=True)
    y = ad.softmax(x, e)
    g = grad_or_zero(y, x)
    ctx.check_eq('value', y, x / (1 + torch.exp(-e * x)))
    ctx.check_eq('derivative', ad.dsoftmax(x, e), g)


def through_model(ctx, nln):
    """the pair an integrand ends up with"""
    import neuro_shooting.shooting_models as sm
    m = sm.AutoShootingIntegrandModelUpDown(in_features=1, nonlinearity=nln, nr_of_particles=1, particle_size=1, inflation_factor=1)
    x = ctx.tensor('x', (2,), requires_grad=True)
    ctx.check_eq('built', x, x)
    if not (hasattr(m, 'nl') and hasattr(m, 'dnl')):
        return
    f, df = REF[(nln or 'identity').lower()]
    ctx.check_eq('value', m.nl(x), f(x))
    ctx.check_eq('derivative', m.dnl(x), df(x))


def every_model(ctx, key, nln):
    m = cm.build(key, nln, 1, 1, infl=1, size=(1, 1))
    x = ctx.tensor('x', (2, 1), requires_grad=True)
    ctx.check_eq('built', x, x)
    if not (hasattr(m, 'nl') and hasattr(m, 'dnl')):
        return
    f, df = REF[nln.lower()]
    ctx.check_eq('value', m.nl(x), f(x))
    ctx.check_eq('derivative', m.dnl(x), df(x))


def unsupported(ctx, query):
    import neuro_shooting.activation_functions_and_derivatives as ad
    ctx.raises('unsupported name is refused', ValueError, ad.get_nonlinearity, query)


def cases(tier):
    out = []
    lim = {'generic': True}
    shapes = [(3,), (2, 1, 2)] if tier == 'quick' else [(), (4,), (2, 2), (2, 1, 2), (1, 2, 2, 1)]
    for n in REF:
        for s in shapes:
            out.append(Case('{}-{}'.format(n, 'x'.join(map(str, s))), pair, 'shape {}'.format(s), lim, query=n, ref=n, shape=s))
        for q in (n.upper(), n.capitalize()):
            out.append(Case('name-' + q, pair, 'shape (2,)', lim, query=q, ref=n, shape=(2,)))
        out.append(Case('model-' + n, through_model, 'shape (2,)', lim, nln=n))
        out.append(Case('mixed-' + n, pair, 'shape (12, 3)', lim, query=''.join(c.upper() if i % 2 else c for i, c in enumerate(n)), ref=n, shape=(12, 3)))
        for key in list(cm.MODELS) + ['dampened', 'transport']:
            out.append(Case('model-{}-{}'.format(key, n), every_model, 'shape (2, 1)', lim, key=key, nln=n.upper() if len(key) % 2 else n))
    out.append(Case('none', pair, 'shape (2,)', lim, query=None, ref='identity', shape=(2,)))
    out.append(Case('model-none', through_model, 'shape (2,)', lim, nln=None))
    out.append(Case('steepness', steep, 'shape (3,), any steepness > 0', lim, shape=(3,)))
    for q in ('', 'elu', 'relu6', 'tan', 'soft', 'leaky_relu', ' relu', 'tanh ', 'sigmoid\n', 'softplus', 'selu', 'none', 'linear', 'id', 'relu,tanh', 'drelu'):
        out.append(Case('unsupported-' + q, unsupported, 'the name {!r}'.format(q), lim, query=q))
    return out
