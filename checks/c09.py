"""C09: enlargement embeds the received states and costates unchanged and trains only the new border."""
import math
import torch
from symtorch.runner import Case
from checks import common as cm
from checks.common import sd
from checks.c07 import particles

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: a real block that needs larger particles receives symbolic states and costates of one or several blocks. What it hands to the (stand-in) solver must contain the '
               'received values unchanged at the centre; the remaining entries must be, for all values, a one-to-one rearrangement of the parameters registered by the forward pass (their derivative with '
               'respect to these parameters is a permutation matrix and they are linear in them). Repeated with new inputs and new parameter values.')
ASSUMPTIONS = [cm.ARITH, cm.TORCH, cm.RANDOM]
OUTSIDE = 'sizes beyond those listed per case; first forward pass without and a later one with received states'


def received(ctx, key, tag, names, K, chans, size, infl, grad=False):
    s, c = sd({}), sd({})
    for n, ch in zip(names, chans):
        shp = cm.shapes(key, ch, K, 1, infl, size)
        s[n] = cm.sym_states(ctx, '{}{}.q'.format(tag, n), shp, grad=grad)
        c[n] = cm.sym_states(ctx, '{}{}.p'.format(tag, n), shp, costate=True, grad=grad)
    return s, c


def data_for(ctx, key, tag, names, chans, size, infl, N=1):
    return sd({n: cm.sym_states(ctx, '{}{}.x'.format(tag, n), cm.shapes(key, ch, N, 1, infl, size), grad=False) for n, ch in zip(names, chans)})


def block(ctx, key, S, nl, own_ch, total, K, size, infl, name, **bk):
    import neuro_shooting.shooting_blocks as sb
    m = cm.build(key, nl, total, K, infl=infl, size=size, particle_dimension=own_ch)
    b = sb.ShootingBlockBase(name=name, shooting_integrand=m, integrator=S, **bk)
    cm.symbolic_parameters(ctx, b, name)
    return b, m


def margin(big, small):
    return tuple((u - v) // 2 for u, v in zip(big, small))


def split(big, small_shape):
    """(centre, border entries) of a tensor"""
    off = margin(big.shape, small_shape)
    idx = tuple(slice(o, o + n) for o, n in zip(off, small_shape))
    mask = torch.ones(tuple(big.shape), dtype=torch.bool)
    mask[idx] = False
    return big[idx], big.reshape(-1)[mask.reshape(-1).nonzero().reshape(-1)]


def rearrangement(ctx, label, border, pars):
    """border is a permutation of all entries of pars"""
    n = border.numel()
    ctx.check(label + ': number of new parameters', sum(p.numel() for p in pars) == n)
    if n == 0:
        return
    rows = []
    for i in range(n):
        g = torch.autograd.grad(border[i], pars, allow_unused=True, retain_graph=True) if border.requires_grad else [None] * len(pars)
        rows.append(torch.cat([(torch.zeros_like(p) if v is None else v).reshape(-1) for v, p in zip(g, pars)]))
    J = torch.stack(rows)
    flat = torch.cat([p.reshape(-1) for p in pars])
    ctx.check_eq(label + ': linear in the parameters', border, J.detach() @ flat)
    one = torch.ones(n)
    ctx.check_eq(label + ': one parameter per entry', J.sum(1), one)
    ctx.check_eq(label + ': each used once', J.sum(0), one)
    ctx.check_eq(label + ': unscaled', J * J, J)


def same_objects(a, b):
    return list(a) == list(b) and all(a[k] is b[k] for k in a)


def enlarge(ctx, key, nl='tanh', frm=(1, 2, 2), to=(1, 3, 4), infl=1, names=('a',), chans=(1,), nm='z', repeat=2, zero=False, gradients=True):
    name = nm
    S = cm.Solver(ctx)
    K0, size0 = frm[0], frm[1:]
    K1, size1 = to[0], to[1:]
    b, m = block(ctx, key, S, nl, 1, sum(chans) + 1, K1, size1, infl, name, **(dict(keep_initial_state_parameters_at_zero=True) if zero else {}))
    before = cm.own(b)
    created = None
    for r in range(repeat):
        s, c = received(ctx, key, 'r{}'.format(r), names, K0, chans, size0, infl, grad=gradients)
        d = data_for(ctx, key, 'r{}'.format(r), names, chans, size1, infl)
        keep = {n: (dict(s[n]), dict(c[n])) for n in names}
        if r:
            # after training
            for n, p in created.items():
                ctx.set_values(p, 'trained{}.{}'.format(r, n))
        b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
        ctx.check('received dictionaries unchanged', all(same_objects(s[n], keep[n][0]) and same_objects(c[n], keep[n][1]) for n in names))
        after = cm.own(b)
        new = {n: p for n, p in after.items() if n not in before}
        ctx.check('the particles of the block are still registered', all(n in after and after[n] is p for n, p in before.items()))
        ctx.check('new parameters are trainable', all(p.requires_grad for p in new.values()))
        ctx.check('new parameters are listed', set(map(id, new.values())) <= set(map(id, b.parameters())))
        if created is None:
            created = new
            # (values they start with are the initialisers' matter, C14)
            for n, p in created.items():
                ctx.set_values(p, 'new.' + n)
            # what was handed to the solver was computed before: run again on the symbolic values
            b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
            new = {n: p for n, p in cm.own(b).items() if n not in before}
        ctx.check('created once', same_objects(new, created))
        gs, gc, gd = m.disassemble_tensor(S.calls[-1]['x0'])
        ctx.check('blocks', list(gs) == sorted(list(names) + [name]) == list(gc))
        q, p = particles(key, b) if not zero else (None, sd({n: v for n, v in before.items()}))
        if not zero:
            ctx.check_same('own states', gs[name], q)
        ctx.check_same('own costates', gc[name], p)
        ctx.check_same('data of the received blocks', sd({n: gd[n] for n in names}), d)
        border, sborder = [], []
        for what, got, src in (('states', gs, s), ('costates', gc, c)):
            for n in names:
                ctx.check('{} of {}'.format(what, n), list(got[n]) == list(src[n]))
                for k in src[n]:
                    want = (K1, src[n][k].shape[1]) + tuple(size1)
                    ctx.check('size of {} {}'.format(n, k), tuple(got[n][k].shape) == want)
                    centre, rest = split(got[n][k], src[n][k].shape)
                    ctx.check_eq('{} of {} {} at the centre'.format(what, n, k), centre, src[n][k])
                    (sborder if zero and what == 'states' else border).append(rest)
        rearrangement(ctx, 'border', torch.cat(border), list(created.values()))
        if gradients:
            # every value is used once and gradients reach it: the squares' derivative is twice the value
            x0 = S.calls[-1]['x0']
            ps = [v for n in names for v in list(s[n].values()) + list(c[n].values())] + list(created.values())
            for i, (v, g) in enumerate(zip(ps, cm.grads((x0 * x0).sum(), ps))):
                ctx.check_eq('gradient %d' % i, g, 2 * v)
        if zero:
            z = torch.cat(sborder)
            ctx.check_eq('border of the states', z, torch.zeros_like(z))
            ctx.check_eq('own states zero', torch.cat([v.reshape(-1) for v in gs[name].values()]), torch.zeros(sum(v.numel() for v in gs[name].values())))


def untouched(ctx, key, nl='tanh', K=1, size=(2, 2), infl=1, to=None, off=False, own=True):
    """equal sizes, no own particles, or enlargement switched off: nothing is added"""
    import neuro_shooting.shooting_blocks as sb
    S = cm.Solver(ctx)
    conv = cm.MODELS[key].conv
    kw = dict(enlarge_pass_through_states_and_costates=False) if off else {}
    if own:
        if conv:
            b, m = block(ctx, key, S, nl, 1, 2, K, to or size, infl, 'z', **kw)
        else:
            m = cm.build(key, nl, 2, K, infl=infl, particle_size=1)
            b = sb.ShootingBlockBase(name='z', shooting_integrand=m, integrator=S, **kw)
            cm.symbolic_parameters(ctx, b, 'z')
    else:
        m = cm.build(key, nl, 1, K, infl=infl, size=to or size, is_pass_through=True)
        b = sb.ShootingBlockBase(name='z', shooting_integrand=m, integrator=S, **kw)
    before = cm.own(b)
    for r in range(2):
        s, c = received(ctx, key, 'r{}'.format(r), ['a'], K, [1], size, infl)
        d = data_for(ctx, key, 'r{}'.format(r), ['a'], [1], size, infl)
        b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
        ctx.check('no new parameters', same_objects(cm.own(b), before))
        gs, gc, gd = m.disassemble_tensor(S.calls[-1]['x0'])
        ctx.check_same('states', gs['a'], s['a'])
        ctx.check_same('costates', gc['a'], c['a'])
        ctx.check_same('data', gd['a'], d['a'])


def off_bigger(ctx, key, size=(2, 1), to=(3, 1)):
    """enlargement switched off: nothing is registered and nothing integrated on made-up values"""
    S = cm.Solver(ctx)
    b, m = block(ctx, key, S, 'tanh', 1, 2, 1, to, 1, 'z', enlarge_pass_through_states_and_costates=False)
    before = cm.own(b)
    s, c = received(ctx, key, 'r', ['a'], 1, [1], size, 1)
    d = data_for(ctx, key, 'r', ['a'], [1], to, 1)
    try:
        b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
    except (RuntimeError, ValueError):
        pass          # sizes that do not fit cannot be concatenated
    ctx.check('no new parameters', same_objects(cm.own(b), before))
    for call in S.calls:
        gs, gc, gd = m.disassemble_tensor(call['x0'])
        ctx.check_same('states', gs['a'], s['a'])
        ctx.check_same('costates', gc['a'], c['a'])


def shrinking(ctx, key, frm, to):
    S = cm.Solver(ctx)
    b, m = block(ctx, key, S, 'tanh', 1, 2, to[0], to[1:], 1, 'z')
    s, c = received(ctx, key, 'r', ['a'], frm[0], [1], frm[1:], 1)
    d = data_for(ctx, key, 'r', ['a'], [1], frm[1:], 1)
    ctx.raises('smaller than received', (ValueError, RuntimeError, AssertionError), lambda: b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d))
    ctx.check('nothing was integrated', not S.calls)


def cases(tier):
    out = []
    lim = {'generic': True}
    grown = [((1, 2, 2), (1, 3, 4)), ((1, 1, 1), (1, 2, 1)), ((1, 1, 2), (1, 1, 3)), ((1, 1, 1), (1, 4, 3)), ((1, 2, 1), (3, 2, 2)), ((2, 1, 1), (3, 3, 2)), ((1, 1, 1), (2, 1, 1)), ((1, 2, 1), (1, 6, 4))]
    if tier == 'thorough':
        grown += [((k, h, w), (k + a, h + b, w + e)) for k in (1, 2) for h in (1, 2) for w in (1, 3) for a in (0, 1, 2) for b in (0, 1, 2, 3) for e in (0, 2, 3) if a + b + e]
    for key in cm.CONV:
        infl = 2 if key == 'updownconv' else 1
        for frm, to in grown:
            out.append(Case('{}-{}-{}'.format(key, 'x'.join(map(str, frm)), 'x'.join(map(str, to))), enlarge, 'one received block, particles x height x width as named, 2 integrations', lim, key=key, frm=frm, to=to, infl=infl))
        frm, to = (1, 1, 2), (1, 2, 3)
        out.append(Case(key + '-two', enlarge, 'two received blocks of 1 and 2 channels', lim, key=key, frm=frm, to=to, infl=infl, names=('a', 'b'), chans=(1, 2)))
        out.append(Case(key + '-three', enlarge, 'three received blocks, names around the own one', lim, key=key, frm=frm, to=to, infl=infl, names=('x', 'b', 'm'), chans=(2, 1, 1), nm='c', repeat=1))
        out.append(Case(key + '-dots', enlarge, 'block names with dots', lim, key=key, frm=frm, to=to, infl=infl, names=('net.1', 'net.2'), chans=(1, 1), nm='net.3', repeat=1))
        out.append(Case(key + '-zero', enlarge, 'own states kept at zero', lim, key=key, frm=frm, to=to, infl=infl, names=('a', 'b'), chans=(1, 2), zero=True))
        out.append(Case(key + '-zero-smallest', enlarge, 'own states kept at zero, received ones of one value', lim, key=key, frm=(1, 1, 1), to=(1, 1, 2), infl=infl, zero=True))
        out.append(Case(key + '-particles', enlarge, 'three and five received particles', lim, key=key, frm=(3, 1, 1), to=(5, 1, 2), infl=infl, repeat=1))
        out.append(Case(key + '-equal', untouched, 'equal sizes', lim, key=key, infl=infl))
        out.append(Case(key + '-pass', untouched, 'no own particles', lim, key=key, infl=infl, own=False, to=(3, 3)))
        out.append(Case(key + '-off', off_bigger, 'enlargement switched off', lim, key=key))
        for frm, to in (((1, 2, 2), (1, 1, 2)), ((1, 2, 2), (1, 2, 1)), ((2, 1, 2), (1, 1, 2)), ((1, 3, 2), (1, 2, 4)), ((2, 2, 2), (1, 3, 3)), ((1, 2, 3), (3, 2, 2))):
            out.append(Case('{}-shrink-{}-{}'.format(key, 'x'.join(map(str, frm)), 'x'.join(map(str, to))), shrinking, 'smaller in some dimension', lim, key=key, frm=frm, to=to))
    for key in cm.VEC:
        out.append(Case(key + '-vector', untouched, 'vector states are passed on untouched', lim, key=key))
        out.append(Case(key + '-vector-pass', untouched, 'vector states, no own particles', lim, key=key, own=False))
    return out
