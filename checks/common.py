"""Shared by the property harnesses: the shooting models, their equations as stated for each model, symbolic state/costate/data."""
import torch
import torch.nn.functional as F
from sortedcontainers import SortedDict

ARITH = 'real arithmetic instead of floating point (rounding, overflow and NaN are outside the model)'
TORCH = 'torch operators compute their mathematical definition; the interpretation of each operator is validated against torch on the concrete shadow of every natural path'
KINK = 'relu: points where a pre-activation is exactly 0 are excluded (generic position)'
RANDOM = 'random initial values are arbitrary reals (fresh symbols), so results hold for every seed'


class M(object):
    def __init__(self, cls, fields, states, analytic=False, conv=False, inflate=True, damp=False, nochain=False, kw=None):
        self.cls = cls
        self.fields = fields       # list of (state, function(P, s, nl))
        self.states = states       # state name -> size as function of (F, infl)
        self.analytic = analytic
        self.conv = conv
        self.inflate = inflate
        self.damp = damp           # has a parameter-free term
        self.nochain = nochain
        self.kw = kw or {}


def lin(o):
    return lambda P, x: F.linear(x, P[o]['weight'], P[o].get('bias'))


def conv(o, pad=1):
    return lambda P, x: F.conv2d(x, P[o]['weight'], P[o].get('bias'), padding=pad)


def gnorm(x, eps=1e-5):
    m = x.mean(dim=(2, 3), keepdim=True)
    v = ((x - m) ** 2).mean(dim=(2, 3), keepdim=True)
    return (x - m) / torch.sqrt(v + eps)


L1, L2, L3 = lin('l1'), lin('l2'), lin('l3')
C1, C2 = conv('conv1'), conv('conv2')
one = lambda Fe, i: Fe
inf = lambda Fe, i: Fe * i

class Models(dict):
    """iterating gives the models every harness covers; the others can be looked up"""
    def __missing__(self, key):
        return EXTRA[key]


MODELS = Models({
    'simple': M('AutoShootingIntegrandModelSimple',
                [('q1', lambda P, s, nl: L1(P, nl(s['q1'])))], {'q1': one}, analytic=True, inflate=False),
    'debug': M('DEBUGAutoShootingIntegrandModelSimple',
               [('q1', lambda P, s, nl: L1(P, nl(s['q1']))), ('q2', lambda P, s, nl: L2(P, nl(s['q2'])))],
               {'q1': one, 'q2': one}, analytic=True, inflate=False),
    'second': M('AutoShootingIntegrandModelSecondOrder',
                [('q1', lambda P, s, nl: L1(P, nl(s['q2']))), ('q2', lambda P, s, nl: L2(P, s['q1']))],
                {'q1': one, 'q2': one}, inflate=False),
    'updown': M('AutoShootingIntegrandModelUpDown',
                [('q1', lambda P, s, nl: L1(P, nl(s['q2']))), ('q2', lambda P, s, nl: L2(P, s['q1']))],
                {'q1': one, 'q2': inf}, analytic=True),
    'universal': M('AutoShootingIntegrandModelUpDownUniversal',
                   [('q1', lambda P, s, nl: L1(P, nl(s['q2']))), ('q2', lambda P, s, nl: L2(P, s['q1']) + L3(P, nl(s['q2'])))],
                   {'q1': one, 'q2': inf}, analytic=True),
    'general': M('AutoShootingIntegrandModelGeneralUpDown',
                 [('q1', lambda P, s, nl: lin('l11')(P, nl(s['q2'])) + lin('l12')(P, s['q1']) + lin('l13')(P, nl(s['q1'])) + lin('l14')(P, s['q2'])),
                  ('q2', lambda P, s, nl: lin('l21')(P, s['q1']) + lin('l22')(P, s['q2']) + lin('l23')(P, nl(s['q2'])) + lin('l24')(P, nl(s['q1'])))],
                 {'q1': one, 'q2': inf}, analytic=True),
    'dampq2': M('AutoShootingIntegrandModelUpdownDampenedQ2',
                [('q1', lambda P, s, nl: L1(P, nl(s['q2']))), ('q2', lambda P, s, nl: L2(P, s['q1']) + 0.5 * s['q2'])],
                {'q1': one, 'q2': inf}, analytic=True, damp=True),
    'symmetrized': M('AutoShootingIntegrandModelUpdownSymmetrized',
                     [('q1', lambda P, s, nl: L1(P, nl(s['q2']))), ('q2', lambda P, s, nl: L2(P, nl(s['q3']))), ('q3', lambda P, s, nl: L3(P, s['q1']))],
                     {'q1': one, 'q2': inf, 'q3': one}, analytic=True),
    'periodic': M('AutoShootingIntegrandModelUpdownPeriodic',
                  [('q1', lambda P, s, nl: L1(P, nl(s['q2'])) + L3(P, s['q1'])), ('q2', lambda P, s, nl: L2(P, s['q1']))],
                  {'q1': one, 'q2': inf}, analytic=True),
    'conv': M('AutoShootingIntegrandModelSimpleConv2D',
              [('q1', lambda P, s, nl: C1(P, nl(s['q2']))), ('q2', lambda P, s, nl: C2(P, s['q1']))],
              {'q1': one, 'q2': one}, conv=True, inflate=False),
    'convbatch': M('AutoShootingIntegrandModelConv2DBatch',
                   [('q1', lambda P, s, nl: C1(P, nl(s['q2']))), ('q2', lambda P, s, nl: C2(P, gnorm(s['q1'])))],
                   {'q1': one, 'q2': one}, conv=True, inflate=False),
    'updownconv': M('AutoShootingIntegrandModelUpDownConv2D',
                    [('q1', lambda P, s, nl: C1(P, nl(s['q2']))), ('q2', lambda P, s, nl: C2(P, s['q1']))],
                    {'q1': one, 'q2': inf}, conv=True),
})

unit = lambda Fe, i: 1
# announced by its constructor as experimental: single blocks and particle dimension 1 only
EXTRA = {
    'dampened': M('AutoShootingIntegrandModelDampenedUpDown',
                  [('q1', lambda P, s, nl: L1(P, nl(s['q2'])) - nl(s['c1']) * s['q1']), ('q2', lambda P, s, nl: L2(P, nl(s['q1'])) - nl(s['c2']) * s['q2']),
                   ('c1', lambda P, s, nl: 0 * s['c1']), ('c2', lambda P, s, nl: 0 * s['c2'])],
                  {'q1': one, 'q2': inf, 'c1': unit, 'c2': unit}, damp=True, nochain=True),
    # its parameters are found by gradient descent on an energy that involves the states: only what moves particles and data is stated
    'transport': M('AutoShootingOptimalTransportSimple',
                   [('q1', lambda P, s, nl: L1(P, nl(s['q2']))), ('q2', lambda P, s, nl: L2(P, s['q1']))],
                   {'q1': one, 'q2': one}, nochain=True, kw=dict(parameter_weight=1.0, inflation_factor=1)),
}

VEC = [k for k in MODELS if not MODELS[k].conv]
CONV = [k for k in MODELS if MODELS[k].conv]
ANALYTIC = [k for k in MODELS if MODELS[k].analytic]

NL = {None: lambda x: x, 'identity': lambda x: x, 'relu': torch.relu, 'tanh': torch.tanh, 'sigmoid': torch.sigmoid,
      'softmax': lambda x: x * torch.sigmoid(x)}


def build(key, nl=None, Fe=1, K=2, pd=1, infl=2, size=None, **kw):
    """an integrand; Fe features (channels for convolution), K particles, pd particle dimension"""
    import neuro_shooting.shooting_models as sm
    m = MODELS[key]
    a = dict(in_features=Fe, nonlinearity=nl, nr_of_particles=K)
    if m.conv:
        a.update(particle_dimension=Fe, particle_size=size or (2, 2))
    else:
        a.update(particle_dimension=pd, particle_size=Fe)
    if m.inflate:
        a['inflation_factor'] = infl
    a.update(m.kw)
    own = kw.pop('own_weights', None)
    a.update(kw)
    cls = getattr(sm, m.cls)
    if own is None:
        return cls(**a)

    class Weighted(cls):
        """a model whose layers carry weights of their own"""

        def create_default_parameter_objects(self):
            po = super().create_default_parameter_objects()
            for o in po:
                for n in po[o].get_parameter_dict():
                    po[o].add_weight(n, own(o, n))
            return po

    return Weighted(**a)


def shapes(key, Fe=1, K=2, pd=1, infl=2, size=None, lead=()):
    m = MODELS[key]
    out = {}
    for s, f in m.states.items():
        if m.conv:
            out[s] = tuple(lead) + (K, f(Fe, infl)) + tuple(size or (2, 2))
        else:
            out[s] = tuple(lead) + (K, pd, f(Fe, infl))
    return out


def sd(items):
    return SortedDict(items)


def sym_states(ctx, prefix, shp, costate=False, grad=True):
    return sd({('p_' if costate else '') + k: ctx.tensor('{}.{}'.format(prefix, k), v, requires_grad=grad) for k, v in shp.items()})


def sym_all(ctx, key, Fe=1, K=2, pd=1, infl=2, size=None, N=1, lead=(), block='blk', tag='', npd=None):
    """symbolic state / costate / data dictionaries of one block"""
    shp = shapes(key, Fe, K, pd, infl, size)
    dshp = shapes(key, Fe, N, npd or pd, infl, size, lead)
    s = sd({block: sym_states(ctx, tag + 'q', shp)})
    c = sd({block: sym_states(ctx, tag + 'p', shp, costate=True)})
    d = sd({block: sym_states(ctx, tag + 'x', dshp)})
    return s, c, d


def params_of(po):
    """plain {object: {name: tensor}} from the parameter objects an integrand returns"""
    return {o: {k: po[o].get_parameter_dict()[k] for k in po[o].get_parameter_dict()} for o in po}


def field(key, P, s, nl):
    f = NL[nl]
    return sd({'dot_' + k: g(P, s, f) for k, g in MODELS[key].fields})


def grads(v, tensors):
    """gradients, zero where there is no dependence (also if the value was cut off from the graph)"""
    g = torch.autograd.grad(v, tensors, allow_unused=True, retain_graph=True) if v.requires_grad else [None] * len(tensors)
    return [torch.zeros_like(t) if u is None else u for u, t in zip(g, tensors)]


def gradients_pass(ctx, label, ins, outs):
    """every input value is contained once in the outputs and gradients reach it: the derivative of the squares is twice the value"""
    ins = list(ins)
    for i, (v, g) in enumerate(zip(ins, grads(sum((o * o).sum() for o in outs), ins))):
        ctx.check_eq('{}: gradient {}'.format(label, i), g, 2 * v)


def values(*dicts):
    return [v for z in dicts for b in z for v in z[b].values()]


def leaf_like(P):
    """fresh leaves of the layer shapes (the vector fields are affine in them, so their value does not matter)"""
    return {o: {k: torch.zeros(tuple(v.shape), dtype=v.dtype, requires_grad=True) for k, v in d.items()} for o, d in P.items()}


def default_param_shapes(integrand):
    po = integrand.create_default_parameter_objects()
    return params_of(po)


def optimal_params(key, integrand, s, c, nl, weights):
    """the stationary layer parameters: (1/w) d/dtheta  mean over particles <p, f(q; theta)>"""
    P = leaf_like(default_param_shapes(integrand))
    rhs = field(key, P, s, nl)
    K = next(iter(s.values())).shape[0]
    pot = 0
    for k in s:
        pot = pot + (c['p_' + k] * rhs['dot_' + k]).sum() / K
    flat = [(o, k) for o in P for k in P[o]]
    g = torch.autograd.grad(pot, [P[o][k] for o, k in flat], create_graph=True, allow_unused=True)
    out = {}
    for (o, k), v in zip(flat, g):
        w = weights(o, k)
        out.setdefault(o, {})[k] = v if w is None else v / w
    return out


def frozen(P):
    return {o: {k: v.detach() for k, v in d.items()} for o, d in P.items()}


def hamilton_costate(key, P, s, c, nl):
    """-d/dq <p, f(q; theta)> with the parameters held fixed"""
    s2 = sd({k: v.detach().clone().requires_grad_(True) for k, v in s.items()})
    rhs = field(key, P, s2, nl)
    pot = 0
    for k in s2:
        pot = pot + (c['p_' + k].detach() * rhs['dot_' + k]).sum()
    g = torch.autograd.grad(pot, [s2[k] for k in s2], allow_unused=True)
    return sd({'dot_p_' + k: (torch.zeros_like(s2[k]) if v is None else -v) for k, v in zip(s2, g)})


# ------------------------------------------------------------------ blocks
class Solver(object):
    """stands in for the ODE solver a block is given: records what it is asked to integrate, evaluates the derivative where
    the harness wants it evaluated, and returns an arbitrary (symbolic) trajectory that starts where it was told to, or what `trajectory` makes of it"""

    def __init__(self, ctx, tag='y', evaluate=None, trajectory=None, starts=True):
        self.ctx = ctx
        self.tag = tag
        self.starts = starts
        self.evaluate = evaluate
        self.trajectory = trajectory
        self.calls = []

    def integrate(self, func, x0, t, *args, **kwargs):
        n = len(self.calls)
        call = {'func': func, 'x0': x0, 't': t}
        self.calls.append(call)
        if self.evaluate is not None:
            self.evaluate(n, func, x0, t)
        if self.trajectory is not None:
            y = self.trajectory(n, func, x0, t)
        else:
            y = self.ctx.tensor('{}{}'.format(self.tag, n), (len(t),) + tuple(x0.shape))
            if self.starts:
                import torch
                y = torch.cat([x0.unsqueeze(0), y[1:]])
        call['y'] = y
        return y

    __call__ = integrate


def make_block(ctx, key, integrator, nl='tanh', Fe=1, K=2, pd=1, infl=2, size=None, name='blk', symbolic=True, block_kw=None, **kw):
    """a block whose particles and costates (and integrand parameters) are symbolic"""
    import neuro_shooting.shooting_blocks as sb
    m = build(key, nl, Fe, K, pd=pd, infl=infl, size=size, **kw)
    b = sb.ShootingBlockBase(name=name, shooting_integrand=m, integrator=integrator, **(block_kw or {}))
    if symbolic:
        symbolic_parameters(ctx, b, name)
    return b, m


def symbolic_parameters(ctx, block, tag):
    for n, p in block.named_parameters():
        ctx.set_values(p, '{}.{}'.format(tag, n))


def own(block):
    """the block's own particles and costates by name (public: registered parameters)"""
    return {n: p for n, p in block.named_parameters()}


def flat_of(*dds):
    """the flat vector the dictionaries of dictionaries amount to: in order, each tensor row by row"""
    return torch.cat([dd[b][k].reshape(-1) for dd in dds for b in dd for k in dd[b]])


def unflat(vec, like, lead=()):
    """inverse of flat_of for one group of shapes {block: {name: shape}}; returns (dict of dicts, rest)"""
    import math
    out = sd({})
    pos = 0
    for b in like:
        out[b] = sd({})
        for k in like[b]:
            n = math.prod(like[b][k])
            out[b][k] = vec[..., pos:pos + n].reshape(tuple(lead) + tuple(like[b][k]))
            pos += n
    return out, vec[..., pos:]


# ------------------------------------------------------------------ experiments
def demo(name):
    """one of the experiments' modules"""
    import importlib
    import os
    import sys
    import neuro_shooting
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(list(neuro_shooting.__path__)[0] + '/x'))), 'demos', 'neurips20')
    if here not in sys.path:
        sys.path.append(here)
    return importlib.import_module(name)


def arbitrary_index(ctx, name, n):
    """an arbitrary number in 0..n-1: every one is explored"""
    if n == 1:
        return 0
    u = ctx.scalar(name, sample=0.5)
    for i in range(n - 1):
        if bool(u < i + 1):
            return i
    return n - 1


class Draws(object):
    """discrete random choices (numpy's, torch's and Python's): any of the offered values, every one of which is explored.
    `offered`: how many values each choice was made from (None: with weights)"""

    def __init__(self, ctx, tag='draw'):
        self.ctx, self.tag, self.n, self.offered = ctx, tag, 0, []

    def __enter__(self):
        import random
        import numpy as np
        import torch
        own = {np.random: dict(choice=self.choice, randint=self.randint, permutation=self.permutation, shuffle=self.shuffle),
               torch: dict(randint=self.torch_randint, randperm=self.torch_randperm),
               random: dict(choice=lambda a: a[self.index(len(a))], randrange=lambda lo, hi=None: self.randint(lo, hi),
                            randint=lambda lo, hi: self.randint(lo, hi + 1), shuffle=self.shuffle,
                            choices=lambda a, k=1: [a[self.index(len(a))] for _ in range(k)],
                            sample=lambda a, k: [list(a)[i] for i in self.order(len(a), k)[:k]])}
        self.old = [(m, k, getattr(m, k)) for m, d in own.items() for k in d]
        for m, d in own.items():
            for k, f in d.items():
                setattr(m, k, f)
        return self

    def __exit__(self, *a):
        for m, k, f in self.old:
            setattr(m, k, f)

    def index(self, n, weights=None):
        self.offered.append(n if weights is None else None)
        self.n += 1
        return arbitrary_index(self.ctx, '{}{}'.format(self.tag, self.n - 1), n)

    def order(self, n, first=None):
        left, out = list(range(n)), []
        while left and (first is None or len(out) < first):
            out.append(left.pop(self.index(len(left))))
        return out + left

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        m = 1 if size is None else int(np.prod(size))
        if replace or size is None:
            idx = [self.index(len(a), p) for _ in range(m)]
        else:
            idx = self.order(len(a), m)[:m]
        out = a[np.array(idx, dtype=np.int64)]
        return out[0] if size is None else out.reshape((size,) if np.ndim(size) == 0 else tuple(size))

    def randint(self, low, high=None, size=None, dtype=int):
        import numpy as np
        lo, hi = (0, int(low)) if high is None else (int(low), int(high))
        if size is None:
            return lo + self.index(hi - lo)
        n = int(np.prod(size))
        return np.array([lo + self.index(hi - lo) for _ in range(n)], dtype=np.int64).reshape(size)

    def permutation(self, x):
        import numpy as np
        x = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        return x[np.array(self.order(len(x)), dtype=np.int64)]

    def shuffle(self, x):
        y = [x[i] for i in self.order(len(x))]
        for i, v in enumerate(y):
            x[i] = v

    def torch_randint(self, low, high=None, size=None, **kw):
        import torch
        if size is None:
            low, high, size = 0, low, high
        return torch.as_tensor(self.randint(low, high, tuple(size)))

    def torch_randperm(self, n, **kw):
        import torch
        return torch.as_tensor(self.order(n))
