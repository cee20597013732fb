"""C06: structured states <-> flat vector (and the other container conversions) are lossless."""
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: nested dictionaries with symbolic entries are flattened, stacked over time, unflattened, converted to tuples and back, '
               'concatenated and split again by the real code; every entry must come back unchanged under its own key, and the vector must contain each entry exactly once.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH]
OUTSIDE = 'more blocks, keys, dimensions or larger shapes than listed; the code has no value-dependent branch here, so only the shapes are bounded'

# a shape zoo: (block -> {key: shape}) for states and data
ZOO = {
    'one': {'a': {'q1': (2, 1, 2)}},
    'two-keys': {'a': {'q1': (1, 1, 2), 'q2': (1, 1, 3)}},
    'two-blocks': {'b1': {'q1': (2, 1, 1), 'q2': (2, 1, 2)}, 'b2': {'q1': (2, 1, 2), 'q2': (2, 1, 1)}},
    'conv': {'a': {'q1': (1, 2, 2, 1), 'q2': (1, 1, 1, 2)}},
    'three-blocks': {'z': {'q1': (1, 2)}, 'm': {'q1': (2, 1)}, 'a': {'q1': (1, 1)}},
    'vector': {'a': {'x': (3,), 'y': (1,)}},
    'many-keys': {'a': {'q%d' % i: (1 + i % 2, 1, 1) for i in range(1, 12)}},
    'many-blocks': {'b%d' % i: {'q1': (1 + i % 3, 1, 1 + i % 2), 'q2': (1, 1, 1)} for i in range(1, 13)},
    'large': {'a': {'q1': (10, 1, 3), 'q2': (10, 1, 15)}},
    'five-dim': {'a': {'q1': (1, 2, 1, 1, 2)}},
}


def zoo(ctx, name, tag, pre='', grad=False):
    return sd({b: sd({pre + k: ctx.tensor('{}.{}.{}'.format(tag, b, k), shp, requires_grad=grad) for k, shp in d.items()}) for b, d in ZOO[name].items()})


def numel(d):
    return sum(v.numel() for b in d for v in d[b].values())


def roundtrip(ctx, states, data, times=2, strided=False):
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    s, c, d = zoo(ctx, states, 's'), zoo(ctx, states, 'c', 'p_'), zoo(ctx, data, 'd')
    if strided:
        # non-contiguous entries
        for z in (s, c, d):
            for b in z:
                for k in z[b]:
                    if z[b][k].dim() >= 2:
                        z[b][k] = z[b][k].transpose(0, -1)
    vec, plans = scd.assemble_tensor(s, c, d)
    ctx.check('one entry each', tuple(vec.shape) == (numel(s) + numel(c) + numel(d),))
    s2, c2, d2 = scd.disassemble_tensor(vec, plans, dim=0)
    ctx.check_same('state', s2, s)
    ctx.check_same('costate', c2, c)
    ctx.check_same('data', d2, d)
    # default dimension
    s2, c2, d2 = scd.disassemble_tensor(vec, assembly_plans=plans)
    ctx.check_same('data (default)', d2, d)
    # over time: rows are arbitrary vectors of that layout
    W = ctx.tensor('w', (times, vec.shape[0]))
    s3, c3, d3 = scd.disassemble_tensor(W, plans, dim=1)
    for r in range(times):
        u = scd.disassemble_tensor(W[r], plans, dim=0)
        for name, x, y in (('state', s3, u[0]), ('costate', c3, u[1]), ('data', d3, u[2])):
            ctx.check_same('{} at time {}'.format(name, r), sd({b: sd({k: x[b][k][r] for k in x[b]}) for b in x}), y)
    # and back again: the vector is recovered
    s4, c4, d4 = scd.disassemble_tensor(W[0], plans, dim=0)
    v2, p2 = scd.assemble_tensor(s4, c4, d4)
    ctx.check_eq('vector', v2, W[0])
    # a second structure does not disturb the first plan
    scd.assemble_tensor(zoo(ctx, 'one', 'o'), zoo(ctx, 'one', 'oc', 'p_'), zoo(ctx, 'one', 'od'))
    s2, c2, d2 = scd.disassemble_tensor(vec, plans, dim=0)
    ctx.check_same('state again', s2, s)
    ctx.check_same('data again', d2, d)
    ctx.raises('unsupported dimension', ValueError, scd.disassemble_tensor, vec, plans, 2)
    ctx.raises('no plan', ValueError, scd.disassemble_tensor, vec, None, 0)


def gradients(ctx, states, data, times=2):
    """nothing is cut off from the graph on the way to the vector and back"""
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    z = [zoo(ctx, states, 's', grad=True), zoo(ctx, states, 'c', 'p_', grad=True), zoo(ctx, data, 'd', grad=True)]
    vec, plans = scd.assemble_tensor(*z)
    cm.gradients_pass(ctx, 'to the vector', cm.values(*z), [vec])
    cm.gradients_pass(ctx, 'and back', cm.values(*z), cm.values(*scd.disassemble_tensor(vec, plans, dim=0)))
    W = ctx.tensor('w', (times, vec.shape[0]), requires_grad=True)
    cm.gradients_pass(ctx, 'over time', [W], cm.values(*scd.disassemble_tensor(W, plans, dim=1)))


def integrand_plans(ctx, key, K=2, N=2):
    m = cm.build(key, None, 1, K, infl=2, size=(1, 2))
    s, c, d = cm.sym_all(ctx, key, 1, K, infl=2, size=(1, 2), N=N)
    vec, plans = m.assemble_tensor(s, c, d)
    ctx.raises('nothing stored yet', ValueError, m.disassemble_tensor, vec)
    a = m.disassemble_tensor(vec, assembly_plans=plans)
    m.set_auto_assembly_plans(plans)
    b = m.disassemble_tensor(vec)
    for x in (a, b):
        ctx.check_same('state', x[0], s)
        ctx.check_same('costate', x[1], c)
        ctx.check_same('data', x[2], d)
    s2, c2, d2 = cm.sym_all(ctx, key, 1, 1, infl=2, size=(1, 2), N=1, tag='o')
    vec2, plans2 = m.assemble_tensor(s2, c2, d2)
    # explicit plans take precedence over the stored ones
    x = m.disassemble_tensor(vec2, assembly_plans=plans2)
    ctx.check_same('explicit state', x[0], s2)
    ctx.check_same('explicit data', x[2], d2)
    # other numbers of particles and samples that make up a vector of the same length
    z = cm.sym_all(ctx, key, 1, K - 1, infl=2, size=(1, 2), N=N + 2, tag='e')
    vec3, plans3 = m.assemble_tensor(*z)
    ctx.check('same length', vec3.shape == vec.shape)
    m.set_auto_assembly_plans(plans3)
    y = m.disassemble_tensor(vec3)
    for what, u, v in zip(('state', 'costate', 'data'), y, z):
        ctx.check_same('other {}'.format(what), u, v)
    m.set_auto_assembly_plans(plans)
    W = torch.stack((vec, vec * 2))
    y = m.disassemble_tensor(W, dim=1)
    ctx.check_same('over time', sd({b_: sd({k: v[1] for k, v in y[2][b_].items()}) for b_ in y[2]}), sd({b_: sd({k: v * 2 for k, v in d[b_].items()}) for b_ in d}))


def what_is_returned(ctx, key, K=1, N=2):
    """the part of the state handed to the user is the transformed data"""
    m = cm.build(key, None, 1, K, infl=2, size=(1, 2))
    s, c, d = cm.sym_all(ctx, key, 1, K, infl=2, size=(1, 2), N=N)
    vec, plans = m.assemble_tensor(s, c, d)
    m.set_auto_assembly_plans(plans)
    r = m.disassemble(vec, dim=0)
    ctx.check_eq('data', r, d['blk']['q1'])
    r = m.disassemble(torch.stack((vec, vec + 1)), dim=1)
    ctx.check_eq('data over time', r, torch.stack((d['blk']['q1'], d['blk']['q1'] + 1)))


def tuples(ctx, z):
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    s = zoo(ctx, z, "s")
    t = scd.compute_tuple_from_generic_dict_of_dicts(s)
    ctx.check('length', len(t) == sum(len(s[b]) for b in s))
    back = scd.extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(t, s)
    ctx.check_same('dict of dicts', back, s)
    back = scd.extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(t, s, prefix='dot_')
    ctx.check_same('prefixed', back, sd({b: sd({'dot_' + k: v for k, v in s[b].items()}) for b in s}))
    for b in s:
        t = scd.compute_tuple_from_generic_dict(s[b])
        ctx.check_same('dict', scd.extract_dict_from_tuple_based_on_generic_dict(t, s[b]), s[b])
        ctx.check_same('dict prefixed', scd.extract_dict_from_tuple_based_on_generic_dict(t, s[b], prefix='p_'), sd({'p_' + k: v for k, v in s[b].items()}))


def parameter_tuples(ctx, key):
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    m = cm.build(key, None, 2, 1, infl=2, size=(1, 2))
    po = m.create_default_parameter_objects_on_consistent_device()
    want = {}
    for o in po:
        D = po[o].get_parameter_dict()
        for k in D:
            D[k] = ctx.tensor('{}.{}'.format(o, k), tuple(D[k].shape))
            want.setdefault(o, {})['g_' + k] = D[k]
    t = scd.compute_tuple_from_parameter_objects(po)
    got = scd.extract_dict_from_tuple_based_on_parameter_objects(t, po, prefix='g_')
    ctx.check('objects', sorted(got) == sorted(want))
    for o in want:
        ctx.check('names', sorted(got[o]) == sorted(want[o]))
        for k in want[o]:
            ctx.check_eq(o + k, got[o][k], want[o][k])


def concat(ctx, dim, sizes, rank, names=('a', 'b', 'c', 'd')):
    """concatenation of blocks keeps their order and is undone by splitting"""
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    s = sd({})
    for n, (x, y) in zip(names, sizes):
        def shp(e):
            r = [1 + (i % 2) for i in range(rank)]
            r[dim] = e
            return tuple(r)
        s[n] = sd({'q1': ctx.tensor(n + '.q1', shp(x)), 'q2': ctx.tensor(n + '.q2', shp(y))})
    cat = scd._concatenate_dict_of_dicts(s, concatenation_dim=dim)
    order = sorted(s)
    ctx.check('keys', list(cat) == ['q1', 'q2'])
    for k in cat:
        ctx.check_eq('order ' + k, cat[k], torch.cat([s[n][k] for n in order], dim=dim))
    ctx.check_same('split', scd._deconcatenate_based_on_generic_dict_of_dicts(cat, s, concatenation_dim=dim), s)
    # derivatives carry another prefix but split in the same way
    dot = sd({'dot_' + k: ctx.tensor('dot_' + k, tuple(v.shape)) for k, v in cat.items()})
    sp = scd._deconcatenate_based_on_generic_dict_of_dicts(dot, s, concatenation_dim=dim)
    for k in cat:
        ctx.check_eq('derivative ' + k, torch.cat([sp[n]['dot_' + k] for n in order], dim=dim), dot['dot_' + k])
        for n in order:
            ctx.check('derivative shape', tuple(sp[n]['dot_' + k].shape) == tuple(s[n][k].shape))
    named = scd._concatenate_named_dict_of_dicts_keeping_structure(s, concatenation_dim=dim, block_name='new')
    ctx.check_same('named', named, sd({'new': cat}))


def mismatch(ctx):
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    s = sd({'a': sd({'q1': ctx.tensor('a', (2, 1, 2))}), 'b': sd({'q1': ctx.tensor('b', (3, 1, 2))})})
    ctx.raises('incompatible shapes are refused', ValueError, scd._concatenate_dict_of_dicts, s, 2)
    s = sd({'a': sd({'q1': ctx.tensor('a', (2, 1, 2))}), 'b': sd({'q9': ctx.tensor('b', (2, 1, 2))})})
    ctx.raises('different keys are refused', ValueError, scd._concatenate_dict_of_dicts, s, 2)
    ctx.raises('unordered dictionaries are refused', ValueError, scd.assemble_tensor, {'a': {'q': ctx.tensor('a', (2,))}}, s, s)
    ctx.check_eq('value', s['a']['q1'], ctx.tensor('a', (2, 1, 2)))


def merge(ctx):
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    f = scd._merge_state_costate_or_data_dict_with_generic_dict_of_dicts
    s = zoo(ctx, 'two-blocks', 's')
    keep = sd({b: sd(dict(s[b])) for b in s})
    own = sd({'q1': ctx.tensor('own.q1', (2, 1, 3)), 'q2': ctx.tensor('own.q2', (2, 1, 1))})
    r = f(own, s, 'b0')
    ctx.check_same('merged', r, sd({'b0': own, 'b1': s['b1'], 'b2': s['b2']}))
    ctx.check_same('inputs untouched', s, keep)
    r['b1']['q1'] = r['b1']['q1'] + 1
    ctx.check_same('inputs still untouched', s, keep)
    ctx.check_same('nothing of its own', f(None, s, 'b0'), s)
    ctx.check_same('nothing passed through', f(own, None, 'b0'), sd({'b0': own}))
    for n in ('b1', 'b2'):
        ctx.raises('name taken ' + n, ValueError, f, own, s, n)
        ctx.raises('name taken even without own state ' + n, ValueError, f, None, s, n)


def zero_dicts(ctx, state, data, cdim):
    """zero data for newly introduced channels: shaped like the data, sized like the state along the feature dimension"""
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    s = sd({k: ctx.tensor('s.' + k, v) for k, v in state.items()})
    d = sd({'prev': sd({k: ctx.tensor('d.' + k, v) for k, v in data.items()})})
    ddim = scd.get_data_concatenation_dim(state_dict=s, data_dict_of_dicts=d, state_concatenation_dim=cdim)
    extra = len(next(iter(data.values()))) - len(next(iter(state.values())))
    ctx.check('dimension', ddim == cdim + extra)
    z = scd._get_zero_data_dict_matching_state_dim(state_dict=s, data_dict_of_dicts=d, state_concatenation_dim=cdim, data_concatenation_dim=ddim)
    ctx.check('keys', list(z) == list(s))
    for k in s:
        want = list(next(iter(data.values())))
        want[ddim] = state[k][cdim]
        ctx.check_eq('zeros ' + k, z[k], torch.zeros(tuple(want)))
    scd2 = scd._get_zero_dict_like(s)
    for k in s:
        ctx.check_eq('like ' + k, scd2[k], torch.zeros(state[k]))
    b = scd._get_zero_dict_like_with_matched_batch_size(s, 5)
    bc = scd._get_zero_dict_like_with_matched_batch_and_channel_size(s, 5, 4)
    for k in s:
        ctx.check_eq('batch ' + k, b[k], torch.zeros((5,) + tuple(state[k][1:])))
        ctx.check_eq('batch and channel ' + k, bc[k], torch.zeros((5, 4) + tuple(state[k][2:])))
    ctx.check('batch size', scd.extract_batch_size_from_dict_of_dicts(d) == next(iter(data.values()))[0])
    ctx.check('channel size', scd.extract_channel_size_from_dict_of_dicts(d) == next(iter(data.values()))[1])


def pick(ctx):
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    s = zoo(ctx, 'two-blocks', 's')
    r = scd.extract_key_from_dict_of_dicts(s, 'q2')
    ctx.check_same('both blocks', r, sd({b: sd({'q2': s[b]['q2']}) for b in s}))
    one = sd({'b1': s['b1']})
    ctx.check_eq('single block', scd.extract_key_from_dict_of_dicts(one, 'q1'), s['b1']['q1'])


def cases(tier):
    out = []
    names = list(ZOO) if tier == 'thorough' else ['one', 'two-keys', 'two-blocks', 'conv', 'three-blocks', 'vector', 'many-keys', 'many-blocks', 'large', 'five-dim']
    for n in names:
        out.append(Case('roundtrip-' + n, roundtrip, 'states {} data two-keys'.format(ZOO[n]), {}, states=n, data='two-keys'))
        out.append(Case('roundtrip-data-' + n, roundtrip, 'states two-blocks, data {}'.format(ZOO[n]), {}, states='two-blocks', data=n, times=3, strided=True))
        out.append(Case('gradients-' + n, gradients, 'states {} data two-keys'.format(ZOO[n]), {}, states=n, data='two-keys'))
        out.append(Case('gradients-data-' + n, gradients, 'states two-blocks, data {}'.format(ZOO[n]), {}, states='two-blocks', data=n, times=3))
        out.append(Case('tuples-' + n, tuples, str(ZOO[n]), {}, z=n))
    if tier == 'thorough':
        for a in ZOO:
            for b in ZOO:
                out.append(Case('roundtrip-{}-{}'.format(a, b), roundtrip, 'all pairs', {}, states=a, data=b, times=4, strided=True))
    for k in cm.MODELS:
        out.append(Case('integrand-' + k, integrand_plans, '2 particles, 2 samples', {}, key=k))
        out.append(Case('returned-' + k, what_is_returned, '1 particle, 2 samples, 2 times', {}, key=k))
        out.append(Case('parameters-' + k, parameter_tuples, 'every layer of the model', {}, key=k))
    for dim in range(5):
        for rank in range(max(2, dim + 1), 6 if tier == 'thorough' else min(6, max(2, dim + 1) + 2)):
            out.append(Case('concat-dim{}-rank{}'.format(dim, rank), concat, 'three blocks of sizes 1..3', {}, dim=dim, rank=rank, sizes=[(1, 2), (2, 1), (3, 1)]))
    out.append(Case('concat-names', concat, 'four blocks out of alphabetical order', {}, dim=2, rank=3, sizes=[(1, 1), (2, 1), (1, 2), (1, 3)], names=('d', 'b', 'c', 'a')))
    out.append(Case('concat-many', concat, 'twelve blocks, sizes up to 9', {}, dim=2, rank=3, sizes=[(1 + i % 9, 1 + (5 * i) % 7) for i in range(12)], names=['b%d' % i for i in range(1, 13)]))
    out.append(Case('mismatch', mismatch, 'inconsistent blocks', {}))
    out.append(Case('merge', merge, 'three blocks', {}))
    out.append(Case('pick', pick, 'two blocks', {}))
    out.append(Case('zeros-vector', zero_dicts, '2 particles, 3 samples', {}, state={'q1': (2, 1, 2), 'q2': (2, 1, 4)}, data={'q1': (3, 1, 5), 'q2': (3, 1, 10)}, cdim=2))
    out.append(Case('zeros-time', zero_dicts, 'data with a leading time dimension', {}, state={'q1': (2, 1, 2), 'q2': (2, 1, 4)}, data={'q1': (4, 3, 1, 5), 'q2': (4, 3, 1, 10)}, cdim=2))
    out.append(Case('zeros-conv', zero_dicts, 'image data', {}, state={'q1': (2, 2, 3, 3), 'q2': (2, 1, 3, 3)}, data={'q1': (4, 3, 3, 3), 'q2': (4, 3, 3, 3)}, cdim=1))
    return out
