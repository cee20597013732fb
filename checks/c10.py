"""C10: striding keeps the same positions of states, costates and data."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.c07 import same_gradient
from checks.common import sd

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the real striding block is applied to states, costates and data with a distinct symbol in every entry; each output must equal, for all values, the selection of '
               'the positions stated by the property.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH]
OUTSIDE = 'more than six dimensions; sizes and strides beyond those listed per case'


def kept(x, strides, dims, off=0):
    for s, d in zip(strides, dims):
        n = x.shape[d + off]
        x = torch.index_select(x, d + off, torch.tensor(list(range(n % s, n, s)), dtype=torch.long))
    return x


def states(ctx, tag, blocks, shape, names, costate=False):
    return sd({b: sd({('p_' if costate else '') + k: ctx.tensor('{}.{}.{}'.format(tag, b, k), (shape[0] + i, shape[1] + j) + tuple(shape[2:])) for j, k in enumerate(names)}) for i, b in enumerate(blocks)})


def stride(ctx, spec, dims, shape, data=None, lead=(), blocks=('b', 'a'), names=('q1', 'q2'), repeat=2):
    from neuro_shooting.striding_block import ShootingStridingBlock
    B = ShootingStridingBlock(stride=spec, stride_dims=dims)
    dd = (dims,) if isinstance(dims, int) else tuple(dims)
    ss = (spec,) * len(dd) if isinstance(spec, int) else tuple(spec)
    for r in range(repeat):
        s = states(ctx, 's%d' % r, blocks, shape, names)
        c = states(ctx, 'c%d' % r, blocks, shape, names, True)
        d = sd({b: sd({k: ctx.tensor('d{}.{}.{}'.format(r, b, k), tuple(lead) + tuple(data or shape)) for k in names}) for b in blocks})
        ins = [(dict(x[b]), x, b) for x in (s, c, d) for b in blocks]
        out = B(state_dict_of_dicts=s, costate_dict_of_dicts=c, data_dict_of_dicts=d)
        ctx.check('three dictionaries', len(out) == 3)
        for what, got, src, off in (('states', out[0], s, 0), ('costates', out[1], c, 0), ('data', out[2], d, len(lead))):
            want = sd({b: sd({k: kept(v, ss, dd, off) for k, v in src[b].items()}) for b in src})
            ctx.check_same(what, got, want)
        ctx.check('inputs unchanged', all(list(x[b]) == list(k0) and all(x[b][k] is k0[k] for k in k0) for k0, x, b in ins))
    ctx.check('nothing to train', not list(B.parameters()))


def gradient(ctx, spec, dims, shape):
    """what is dropped gets no gradient, what is kept gets its own"""
    from neuro_shooting.striding_block import ShootingStridingBlock
    B = ShootingStridingBlock(stride=spec, stride_dims=dims)
    mk = lambda n: ctx.tensor(n, shape, requires_grad=True)
    ins = [mk('s'), mk('c'), mk('d')]
    out = B(sd({'a': sd({'q1': ins[0]})}), sd({'a': sd({'p_q1': ins[1]})}), sd({'a': sd({'q1': ins[2]})}))
    dd = (dims,) if isinstance(dims, int) else tuple(dims)
    ss = (spec,) * len(dd) if isinstance(spec, int) else tuple(spec)
    for i, (o, x) in enumerate(zip(out, ins)):
        v = o['a'][list(o['a'])[0]]
        w = ctx.tensor('w%d' % i, tuple(v.shape))
        same_gradient(ctx, 'gradient {}'.format(i), w * v, w * kept(x, ss, dd), [x])


def refused(ctx, spec, dims, shape, when='any'):
    from neuro_shooting.striding_block import ShootingStridingBlock
    E = (ValueError, TypeError, IndexError, ZeroDivisionError)

    def go():
        B = ShootingStridingBlock(stride=spec, stride_dims=dims)
        if when == 'construct':
            return
        mk = lambda n: ctx.tensor(n, shape)
        B(sd({'a': sd({'q1': mk('s')})}), sd({'a': sd({'p_q1': mk('c')})}), sd({'a': sd({'q1': mk('d')})}))
    ctx.raises('refused', E, go)


def cases(tier):
    out = []
    add = lambda n, b, **k: out.append(Case(n, stride, b, {}, **k))
    sizes = range(1, 13) if tier == 'quick' else range(1, 20)
    for n in sizes:
        for st in (1, 2, 3, 4, 7) if tier == 'quick' else range(1, 13):
            add('dim2-{}by{}'.format(n, st), 'size {} stride {}'.format(n, st), spec=st, dims=2, shape=(1, 1, n, 2), repeat=1)
            add('dim3-{}by{}'.format(n, st), 'size {} stride {}'.format(n, st), spec=(st,), dims=[3], shape=(1, 1, 2, n), repeat=1)
    for h, w in ((2, 2), (3, 4), (4, 3), (5, 2), (3, 3), (9, 8)):
        add('both-{}x{}'.format(h, w), 'stride 2 in both dimensions', spec=2, dims=(2, 3), shape=(1, 1, h, w))
        add('swap-{}x{}'.format(h, w), 'dimensions listed in reverse, different strides', spec=(2, 3), dims=(3, 2), shape=(1, 1, h, w))
        add('list-{}x{}'.format(h, w), 'lists, different strides', spec=[1, 2], dims=[2, 3], shape=(1, 1, h, w))
        add('data-{}x{}'.format(h, w), 'data of other batch and spatial size than the particles', spec=[3, 2], dims=(2, 3), shape=(2, 1, h, w), data=(3, 2, w + 1, h))
    add('five', '5 dimensions', spec=(2, 3, 2), dims=(2, 3, 4), shape=(1, 1, 3, 4, 2), repeat=1)
    add('six', '6 dimensions', spec=(2, 2), dims=(5, 2), shape=(1, 1, 3, 2, 1, 4), repeat=1)
    add('vector', 'vector states', spec=2, dims=2, shape=(2, 1, 5))
    add('vector-lead', 'vector data with one extra leading dimension', spec=2, dims=2, shape=(2, 1, 5), data=(1, 1, 5), lead=(3,))
    add('vector-lead2', 'vector data with two extra leading dimensions', spec=(3,), dims=(2,), shape=(2, 1, 4), data=(1, 1, 4), lead=(2, 2))
    add('image-lead', 'image data with one extra leading dimension', spec=2, dims=(2, 3), shape=(1, 1, 3, 2), data=(2, 1, 3, 2), lead=(3,))
    add('image-lead-odd', 'image data with one extra leading dimension, two strides', spec=(3, 2), dims=[2, 3], shape=(1, 1, 4, 3), data=(1, 2, 5, 4), lead=(2,))
    for n, (st, d, shp) in {'two': (2, (2, 3), (1, 1, 3, 4)), 'one': (3, 3, (2, 1, 2, 5)), 'vec': (2, 2, (2, 1, 5))}.items():
        out.append(Case('gradient-' + n, gradient, 'any weighting of the outputs', {}, spec=st, dims=d, shape=shp))
    bad = {
        'batch': (2, 0, (2, 2, 2, 2), 'any'), 'channel': (2, 1, (2, 2, 2, 2), 'any'), 'batch-in-list': (2, [2, 0], (2, 2, 2, 2), 'any'), 'channel-in-tuple': (2, (3, 1), (2, 2, 2, 2), 'any'),
        'negative': (2, -1, (2, 2, 2, 2), 'any'), 'negative2': (2, (2, -1), (2, 2, 2, 2), 'any'), 'beyond': (2, 4, (2, 2, 2, 2), 'any'), 'beyond-vector': (2, (2, 3), (2, 2, 2), 'any'), 'far': (2, 7, (2, 2, 2, 2), 'any'),
        'longer': ((2, 2), 2, (2, 2, 2, 2), 'any'), 'shorter': ((2,), (2, 3), (2, 2, 2, 2), 'any'), 'list-longer': ([2, 2, 2], [2, 3], (2, 2, 2, 2), 'any'), 'list-shorter': ([2], (2, 3), (2, 2, 2, 2), 'any'),
        'empty-stride': ((), (2,), (2, 2, 2, 2), 'any'), 'float-stride': (2.0, 2, (2, 2, 2, 2), 'any'), 'no-stride': (None, 2, (2, 2, 2, 2), 'any'), 'no-dims': (2, None, (2, 2, 2, 2), 'any'), 'float-dims': (2, 2.0, (2, 2, 2, 2), 'any'),
    }
    for n, (st, d, shp, when) in bad.items():
        out.append(Case('refuse-' + n, refused, 'stride {} in dimension {}'.format(st, d), {}, spec=st, dims=d, shape=shp, when=when))
    return out
