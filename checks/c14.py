"""C14: initialisers create what was asked for."""
import torch
import torch.nn as nn
from symtorch.runner import Case
from checks import common as cm

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: random draws, magnitudes, constants and the sample batch are symbolic; every entry of what an initialiser creates must equal zero, the constant, or (sample batch +) magnitude '
               'times a standard normal draw of its own. For every model the states and costates registered by a block must have the sizes the stated equations need and the values the given initialisers create.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM, 'random number source: restarting it with the same seed repeats the same draws']
OUTSIDE = 'statistical quality of torch\'s generator; initialisers derived by users; sizes beyond the listed ones'

CLASSES = {'vector': ('VectorEvolutionParameterInitializer', False, False), 'vector-batch': ('VectorEvolutionSampleBatchParameterInitializer', False, True),
           'conv': ('ConvolutionEvolutionParameterInitializer', True, False), 'conv-batch': ('ConvolutionEvolutionSampleBatchParameterInitializer', True, True)}


def cls_of(kind):
    import neuro_shooting.parameter_initialization as pi
    n, conv, batch = CLASSES[kind]
    return getattr(pi, n), conv, batch


def trainable(ctx, label, p, size):
    ctx.check(label + ': parameter', isinstance(p, nn.Parameter) and p.requires_grad and p.is_leaf)
    ctx.check(label + ': size', tuple(p.shape) == tuple(size))
    # a tensor of its own, every entry of it
    ctx.check(label + ': own entries', p.numel() < 2 or 0 not in p.stride())


def direct(ctx, kind, K, pd, ps, as_list=False):
    """create_parameters"""
    cls, conv, batch = cls_of(kind)
    size = (K, pd) + (tuple(ps) if conv else (ps,))
    arg = dict(nr_of_particles=K, particle_dimension=pd, particle_size=list(ps) if conv and as_list else ps)
    m = ctx.scalar('magnitude', pos=True)
    c = ctx.scalar('constant')
    sb = ctx.tensor('batch', size) if batch else None
    before = sb.clone() if batch else None
    ini = cls(only_random_initialization=True, random_initialization_magnitude=m, sample_batch=sb)
    unit = cls(random_initialization_magnitude=1.0, sample_batch=torch.zeros(size) if batch else None)
    default = cls(sample_batch=sb)

    ctx.seed_random(3)
    p, again = ini.create_parameters(**arg), ini.create_parameters(**arg)
    trainable(ctx, 'random', p, size)
    ctx.check_own_draws('draws', [p, again])
    ctx.seed_random(3)
    u = unit.create_parameters(**arg)
    ctx.check_standard_noise('noise', u, 3)
    ctx.check_eq('random', p, (sb if batch else 0) + m * u.detach())
    ctx.seed_random(3)
    ctx.check_eq('default magnitude', default.create_parameters(**arg), (sb if batch else 0) + 0.5 * u.detach())
    ctx.seed_random(3)
    ctx.check_eq('explicitly neither', ini.create_parameters(set_to_zero=False, set_to_constant=None, **arg), p)

    for lab, i in (('zero', ini), ('zero without random', cls(only_random_initialization=False, random_initialization_magnitude=m, sample_batch=sb))):
        z = i.create_parameters(set_to_zero=True, **arg)
        trainable(ctx, lab, z, size)
        ctx.check_eq(lab, z, torch.zeros(size))
        k = i.create_parameters(set_to_constant=c, **arg)
        trainable(ctx, 'constant, ' + lab, k, size)
        ctx.check_eq('constant, ' + lab, k, c * torch.ones(size))
        k0 = i.create_parameters(set_to_constant=0.0, **arg)
        ctx.check_eq('constant zero, ' + lab, k0, torch.zeros(size))
        ctx.raises('zero and constant, ' + lab, ValueError, i.create_parameters, set_to_zero=True, set_to_constant=c, **arg)
        ctx.raises('zero and constant 0, ' + lab, ValueError, i.create_parameters, set_to_zero=True, set_to_constant=0.0, **arg)
    ctx.raises('no custom initialisation', ValueError, cls(only_random_initialization=False, sample_batch=sb).create_parameters, **arg)
    if conv:
        bad = dict(arg, particle_size=3)
        for kw in (dict(), dict(set_to_zero=True), dict(set_to_constant=1.0)):
            ctx.raises('size must be a tuple or list {}'.format(sorted(kw)), ValueError, ini.create_parameters, **dict(bad, **kw))
    # what is created belongs to its owner alone
    p.data.add_(1)
    if batch:
        ctx.check_eq('sample batch untouched', sb, before)
    ctx.seed_random(3)
    ctx.check_eq('later creations unaffected', ini.create_parameters(**arg) + 1, p)


def sized(ctx, kind, size, like):
    """create_parameters_like and create_parameters_of_size"""
    cls, conv, batch = cls_of(kind)
    m = ctx.scalar('magnitude', pos=True)
    c = ctx.scalar('constant')
    sb = ctx.tensor('batch', (2, 1, 2)) if batch else None
    ini = cls(random_initialization_magnitude=m, sample_batch=sb)
    unit = cls(random_initialization_magnitude=1.0, sample_batch=sb)
    custom = cls(only_random_initialization=False, random_initialization_magnitude=m, sample_batch=sb)
    shape = tuple(size) if isinstance(size, (tuple, list)) else (size,)
    ref = ctx.tensor('like', shape)
    if like:
        make = lambda i, **k: i.create_parameters_like(ref, **k)
    else:
        make = lambda i, **k: i.create_parameters_of_size(size, **k)
    ctx.seed_random(4)
    p, again = make(ini), make(ini)
    trainable(ctx, 'random', p, shape)
    ctx.check_own_draws('draws', [p, again])
    ctx.seed_random(4)
    u = make(unit)
    ctx.check_standard_noise('noise', u, 4)
    ctx.check_eq('random', p, m * u.detach())
    for lab, i in (('zero', ini), ('zero without random', custom)):
        z = make(i, set_to_zero=True)
        trainable(ctx, lab, z, shape)
        ctx.check_eq(lab, z, torch.zeros(shape))
        k = make(i, set_to_constant=c)
        trainable(ctx, 'constant, ' + lab, k, shape)
        ctx.check_eq('constant, ' + lab, k, c * torch.ones(shape))
        ctx.check_eq('constant zero, ' + lab, make(i, set_to_constant=0), torch.zeros(shape))
        ctx.raises('zero and constant, ' + lab, ValueError, make, i, set_to_zero=True, set_to_constant=c)
        ctx.raises('zero and constant 0, ' + lab, ValueError, make, i, set_to_zero=True, set_to_constant=0.0)
    ctx.raises('no custom initialisation', ValueError, make, custom)
    if like:
        keep = ctx.tensor('like', size)
        for t in (p, z, k):
            t.data.add_(1)
        ctx.check_eq('reference tensor untouched', ref, keep)
        f = ctx.tensor('like32', size, dtype=torch.float32)
        ctx.check('type follows the reference', all(t.dtype == torch.float32 for t in (make2(ini, f), make2(ini, f, set_to_zero=True), make2(ini, f, set_to_constant=2.0))))


def make2(i, f, **k):
    return i.create_parameters_like(f, **k)


def model(ctx, key, Fe, K, pd=1, infl=2, size=None, given=True):
    """states and costates of a block: all of the model's, with its sizes, from the given initialisers"""
    import neuro_shooting.shooting_blocks as sb
    import neuro_shooting.parameter_initialization as pi
    m = cm.MODELS[key]
    a, b = ctx.scalar('state magnitude', pos=True), ctx.scalar('costate magnitude', pos=True)
    cls = pi.ConvolutionEvolutionParameterInitializer if m.conv else pi.VectorEvolutionParameterInitializer
    want = cm.shapes(key, Fe, K, pd, infl, size)
    if not given:
        a = b = 0.5

    def make(x, y):
        ctx.seed_random(6)
        kw = dict(state_initializer=cls(random_initialization_magnitude=x), costate_initializer=cls(random_initialization_magnitude=y)) if given or x == 1.0 else {}
        i = cm.build(key, 'tanh', Fe, K, pd=pd, infl=infl, size=size, **kw)
        return i, cm.own(sb.ShootingBlockBase(name='blk', shooting_integrand=i, integrator=cm.Solver(ctx)))
    _, unit = make(1.0, 1.0)
    integ, own = make(a, b)
    ctx.check('all states and costates, nothing else', sorted(own) == sorted(list(want) + ['p_' + k for k in want]))
    for k in want:
        trainable(ctx, k, own[k], want[k])
        trainable(ctx, 'p_' + k, own['p_' + k], want[k])
    ctx.check_own_draws('draws', [own[k] for k in sorted(own)])
    # scaled by the magnitude asked for: the same draws with magnitude one
    for k in sorted(own):
        ctx.check_eq('scale of ' + k, own[k], (b if k.startswith('p_') else a) * unit[k].detach())
    # the equations accept them
    s = cm.sd({'blk': cm.sd({k: own[k] for k in want})})
    c = cm.sd({'blk': cm.sd({'p_' + k: own['p_' + k] for k in want})})
    d = cm.sd({'blk': cm.sym_states(ctx, 'x', cm.shapes(key, Fe, 1, pd, infl, size))})
    ds, dc, dd = integ.compute_gradients(0.0, s, c, d)[:3]
    for k in want:
        ctx.check('derivative of {} fits'.format(k), tuple(ds['blk']['dot_' + k].shape) == want[k] and tuple(dc['blk']['dot_p_' + k].shape) == want[k])
    # asked to start at zero: states zero and costates random
    z = integ.create_initial_state_parameters_if_needed(set_to_zero=True)
    ctx.check('zero states', sorted(z) == sorted(want))
    for k in want:
        ctx.check('zero {}: size'.format(k), tuple(z[k].shape) == want[k])
        ctx.check_eq('zero ' + k, z[k], torch.zeros(want[k]))
    pz = integ.create_initial_costate_parameters(state_dict=z)
    ctx.check('costate for each state', sorted(pz) == sorted('p_' + k for k in want))
    ctx.check_own_draws('costates of zero states', [pz[k] for k in pz])


def none(ctx, key):
    """nothing is created without a number of particles, a size or a dimension"""
    for drop in ('nr_of_particles', 'particle_size', 'particle_dimension'):
        i = cm.build(key, 'tanh', 1, 2, **{})
        setattr(i, drop, None)
        s = i.create_initial_state_parameters_if_needed(set_to_zero=False)
        ctx.check('no states without ' + drop, s is None)
        ctx.check('no costates without ' + drop, i.create_initial_costate_parameters(state_dict=s) is None)


def cases(tier):
    big = tier != 'quick'
    for kind, (_, conv, _) in CLASSES.items():
        dims = [(1, 1, 1), (2, 1, 2), (1, 2, 3), (3, 2, 1), (12, 2, 5)] + ([(4, 3, 2), (2, 2, 2)] if big else [])
        for K, pd, ps in dims:
            yield Case('create-{}-{}x{}x{}'.format(kind, K, pd, ps), direct, 'K={} pd={} size={}'.format(K, pd, ps), kind=kind, K=K, pd=pd, ps=(ps, ps + 1) if conv else ps)
        if conv:
            yield Case('create-{}-list'.format(kind), direct, 'particle size as list', kind=kind, K=2, pd=1, ps=(2, 1), as_list=True)
        for size in [(1,), (3,), (2, 1, 2), (12, 1, 4)] + ([(2, 3, 2, 2), (5,)] if big else []):
            for like in (True, False):
                yield Case('{}-{}-{}'.format('like' if like else 'size', kind, 'x'.join(map(str, size))), sized, 'size {}'.format(size), kind=kind, size=size, like=like)
    yield Case('size-int', sized, 'size given as a number', kind='vector', size=3, like=False)
    for key in cm.MODELS:
        m = cm.MODELS[key]
        for (Fe, K, pd, infl) in [(1, 2, 1, 2), (2, 1, 1, 3), (3, 10, 1, 5)] + ([(2, 3, 1, 1), (3, 2, 1, 2)] if big else []) + ([] if m.conv else [(2, 2, 2, 2)]):
            yield Case('model-{}-F{}-K{}-pd{}-infl{}'.format(key, Fe, K, pd, infl), model, 'model sizes', key=key, Fe=Fe, K=K, pd=pd, infl=infl, size=(2, 3) if m.conv else None)
        yield Case('default-{}'.format(key), model, 'default initialisers', key=key, Fe=1, K=2, size=(2, 2), given=False)
        yield Case('none-{}'.format(key), none, 'incomplete specification', key=key)
