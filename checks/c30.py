"""C30: parameters without a closed form are found by descending the Lagrangian."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd

import neuro_shooting.shooting_integrands as si
import neuro_shooting.shooting_models as sm
import neuro_shooting.overwrite_classes as oc

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: integrands that are nonlinear in their parameters (the optimal transport model and models of our own derived from the base classes) run with symbolic particles, costates, data, weights and initial '
               'layers. Every iteration starts from arbitrary symbolic layers and has to be the stated gradient step; in small cases the whole iteration, the derivatives that follow from it and the norm penalty are compared with the stated recursion.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.KINK]
OUTSIDE = 'sizes beyond those listed; convergence of the iteration'

STEPS = {'own': 5, 'gain': 5, 'transport': 10}


def layers(ctx, po, tag='start'):
    for o in po:
        for k, v in po[o].get_parameter_dict().items():
            ctx.set_values(v, '{}.{}.{}'.format(tag, o, k))
    return po


class Own(si.ShootingNonlinearInParameterVectorIntegrand):
    """a model of our own: two layers, so the right hand side is not linear in the parameters"""

    def __init__(self, ctx, w, **kw):
        super().__init__(**kw)
        self.ctx, self.w = ctx, w

    def create_initial_state_parameters(self, set_to_zero, *args, **kwargs):
        return sd({'q1': self._state_initializer.create_parameters(nr_of_particles=self.nr_of_particles, particle_size=self.particle_size, particle_dimension=self.particle_dimension, set_to_zero=set_to_zero)})

    def create_default_parameter_objects(self):
        F = self.in_features
        return layers(self.ctx, sd({'l1': oc.SNN_Linear(in_features=F, out_features=F, weight=self.w), 'l2': oc.SNN_Linear(in_features=F, out_features=F, bias=False, weight=self.w)}))

    def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
        return sd({'dot_q1': parameter_objects['l2'](self.nl(parameter_objects['l1'](state_dict_or_dict_of_dicts['q1'])))})

    def get_initial_data_dict_from_data_tensor(self, x):
        return sd({'q1': x})

    def disassemble(self, input, dim=1):
        return None


class Gain(Own):
    """one layer without bias"""

    def create_default_parameter_objects(self):
        return layers(self.ctx, sd({'l1': oc.SNN_Linear(in_features=self.in_features, out_features=self.in_features, bias=False, weight=self.w)}))

    def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
        return sd({'dot_q1': parameter_objects['l1'](self.nl(state_dict_or_dict_of_dicts['q1']))})


class Transport(sm.AutoShootingOptimalTransportSimple):
    def create_default_parameter_objects(self):
        return layers(self.ctx, super().create_default_parameter_objects())


def make(ctx, kind, nl, Fe, K, pd, w):
    a = dict(in_features=Fe, nonlinearity=nl, nr_of_particles=K, particle_dimension=pd, particle_size=Fe, parameter_weight=w)
    if kind == 'transport':
        m = Transport(inflation_factor=1, **a)
        m.ctx = ctx
        return m
    return (Own if kind == 'own' else Gain)(ctx, w, **a)


def lin(P, o, x):
    y = torch.einsum('...i,oi->...o', x, P[o]['weight'])
    return y + P[o]['bias'] if 'bias' in P[o] else y


def rates(kind, P, q, f):
    if kind == 'own':
        return {'q1': lin(P, 'l2', f(lin(P, 'l1', q['q1'])))}
    if kind == 'gain':
        return {'q1': lin(P, 'l1', f(q['q1']))}
    return {'q1': lin(P, 'l1', f(q['q2'])), 'q2': lin(P, 'l2', q['q1'])}


def energies(kind, P, q, p, f, w):
    r = rates(kind, P, q, f)
    K = q['q1'].shape[0]
    pot = sum((p['p_' + k] * r[k]).sum() / K for k in r)
    if kind == 'transport':
        kin = 0.5 * w * sum((v ** 2).sum() for v in r.values())
    else:
        kin = 0.5 * sum(w * (v ** 2).sum() for o in P for v in P[o].values())
    return kin, pot


def descend(kind, P, q, p, f, w):
    """one gradient step of size one half on kinetic minus potential energy"""
    kin, pot = energies(kind, P, q, p, f, w)
    flat = [(o, k) for o in sorted(P) for k in sorted(P[o])]
    g = torch.autograd.grad(kin - pot, [P[o][k] for o, k in flat], create_graph=True, allow_unused=True)
    out = {}
    for (o, k), v in zip(flat, g):
        out.setdefault(o, {})[k] = P[o][k] if v is None else P[o][k] - 0.5 * v
    return out


def states(ctx, kind, Fe, K, pd, N=1, blocks=('blk',)):
    ks = ('q1', 'q2') if kind == 'transport' else ('q1',)
    s, c, d = sd({}), sd({}), sd({})
    for b in blocks:
        s[b] = sd({k: ctx.tensor('{}.q.{}'.format(b, k), (K, pd, Fe), requires_grad=True) for k in ks})
        c[b] = sd({'p_' + k: ctx.tensor('{}.p.{}'.format(b, k), (K, pd, Fe), requires_grad=True) for k in ks})
        d[b] = sd({k: ctx.tensor('{}.x.{}'.format(b, k), (N, pd, Fe), requires_grad=True) for k in ks})
    return s, c, d


def steps(ctx, kind, nl, Fe, K, pd=1, weighted=True):
    """each iteration is a gradient step, whatever layers it starts from"""
    # without a weight it is one
    w = ctx.scalar('w', pos=True) if weighted else 1.0
    m = make(ctx, kind, nl, Fe, K, pd, w if weighted else None)
    s, c, d = states(ctx, kind, Fe, K, pd)
    q, p = s['blk'], c['blk']
    log = []
    inner = m.compute_lagrangian

    def recorded(t, state_dict_of_dicts, costate_dict_of_dicts, parameter_objects):
        n = len(log)
        entry = {'in': cm.params_of(parameter_objects)}
        log.append(entry)
        for o in parameter_objects:
            pd_ = parameter_objects[o].get_parameter_dict()
            for k in list(pd_):
                pd_[k] = ctx.tensor('it{}.{}.{}'.format(n, o, k), tuple(pd_[k].shape), requires_grad=True)
        entry['from'] = cm.params_of(parameter_objects)
        entry['energies'] = inner(t=t, state_dict_of_dicts=state_dict_of_dicts, costate_dict_of_dicts=costate_dict_of_dicts, parameter_objects=parameter_objects)
        return entry['energies']

    m.compute_lagrangian = recorded
    po = m.compute_parameters(t=ctx.tensor('t', ()), state_dict_of_dicts=s, costate_dict_of_dicts=c)
    f = cm.NL[nl]
    ctx.check('iterations', len(log) == STEPS[kind])
    ends = [e['in'] for e in log[1:]] + [cm.params_of(po)]
    for i, (e, got) in enumerate(zip(log, ends)):
        kin, pot = energies(kind, e['from'], q, p, f, w)
        ctx.check_eq('lagrangian %d' % i, e['energies'][0], kin - pot)
        ctx.check_eq('kinetic energy %d' % i, e['energies'][1], kin)
        ctx.check_eq('potential energy %d' % i, e['energies'][2], pot)
        want = descend(kind, e['from'], q, p, f, w)
        ctx.check('layers %d' % i, sorted(got) == sorted(want))
        for o in want:
            for k in want[o]:
                ctx.check_eq('step {} {} {}'.format(i, o, k), got[o][k], want[o][k])


def whole(ctx, kind, nl, Fe, K, pd=1, t0=True, blocks=('blk',), weighted=True):
    """the whole iteration, the derivatives and the norm penalty that follow from it"""
    w = ctx.scalar('w', pos=True) if weighted else 1.0
    m = make(ctx, kind, nl, Fe, K, pd, w if weighted else None)
    s, c, d = states(ctx, kind, Fe // len(blocks), K, pd, blocks=blocks)
    q, p, x = [sd({k: torch.cat([v[b][k] for b in blocks], dim=2) for k in v[blocks[0]]}) for v in (s, c, d)]
    t = torch.zeros(()) if t0 else ctx.tensor('t', ())
    if not t0:
        ctx.assume(t > 0)
    ds, dc, dd, po = m.compute_gradients(t, s, c, d)
    f = cm.NL[nl]
    P = cm.params_of(m.create_default_parameter_objects())
    for _ in range(STEPS[kind]):
        P = descend(kind, P, q, p, f, w)
    got = cm.params_of(po)
    for o in P:
        for k in P[o]:
            ctx.check_eq('layer {} {}'.format(o, k), got[o][k], P[o][k])
    for part, dot, at in (('particles', ds, q), ('data', dd, x)):
        r = rates(kind, P, at, f)
        for k in r:
            ctx.check_eq('{} {}'.format(part, k), torch.cat([dot[b]['dot_' + k] for b in blocks], dim=2), r[k])
    kin, pot = energies(kind, P, q, p, f, w)
    if t0:
        ctx.check_eq('norm penalty', m.get_norm_penalty().reshape(()), kin)
    # the particles' costates are paired with the mean over the particles
    g = cm.grads(K * (kin - pot), [s[b][k] for b in blocks for k in s[b]])
    for (b, k), v in zip([(b, k) for b in blocks for k in s[b]], g):
        ctx.check_eq('costates {} {}'.format(b, k), dc[b]['dot_p_' + k], v)


def cases(tier):
    lim = {'generic': True}
    big = tier != 'quick'
    for kind in ('own', 'gain', 'transport'):
        for nl in (None, 'tanh', 'relu') + (('sigmoid',) if big else ()):
            yield Case('steps-{}-{}'.format(kind, nl), steps, '1 feature, 2 particles', lim, kind=kind, nl=nl, Fe=1, K=2)
        yield Case('steps-{}-features'.format(kind), steps, '2 features, 1 particle', lim, kind=kind, nl='tanh', Fe=2, K=1)
        yield Case('steps-{}-default-weight'.format(kind), steps, 'no weight given', lim, kind=kind, nl='tanh', Fe=1, K=2, weighted=False)
        yield Case('steps-{}-dims'.format(kind), steps, '2 particle dimensions', lim, kind=kind, nl='tanh', Fe=1, K=2, pd=2)
    for t0 in (True, False):
        yield Case('whole-gain-%s' % t0, whole, '1 feature, 1 particle', lim, kind='gain', nl='tanh', Fe=1, K=1, t0=t0)
        yield Case('whole-gain2-%s' % t0, whole, '1 feature, 2 particles', lim, kind='gain', nl=None, Fe=1, K=2, t0=t0)
    yield Case('whole-chain', whole, '2 blocks of 1 feature, 1 particle', lim, kind='gain', nl=None, Fe=2, K=1, blocks=('a', 'b'))
    yield Case('whole-transport', whole, '1 feature, 1 particle', lim, kind='transport', nl=None, Fe=1, K=1)
    yield Case('whole-gain-default-weight', whole, '1 feature, 1 particle, no weight given', lim, kind='gain', nl='tanh', Fe=1, K=1, weighted=False)
    yield Case('whole-transport-default-weight', whole, '1 feature, 1 particle, no weight given', lim, kind='transport', nl=None, Fe=1, K=1, weighted=False)
