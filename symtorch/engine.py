"""Symbolic execution of real torch code.

A TorchDispatchMode sees every aten operation the code under test performs
(forward, autograd backward, double backward, in-place updates, views).  The
operation is executed concretely, which settles shapes, strides and aliasing;
a symbolic memory, indexed by storage and element offset, is updated with the
terms the operation computes.  Views need no handling: they share storage.
An operation without a transfer function raises Unsupported.
"""
import functools
import os
import numbers
import itertools
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes
from torch.utils._pytree import tree_flatten, tree_map
from . import expr as X
from .expr import SymbolicError

aten = torch.ops.aten


class Unsupported(SymbolicError):
    pass


_raw_tolist = torch.Tensor.tolist


def raw_values(t):
    """the concrete values of a tensor, bypassing the symbolic layer"""
    with _disable_current_modes():
        return _raw_tolist(t.detach().reshape(-1))


def _obj(shape):
    return np.empty(shape, dtype=object)


_real = np.frompyfunc(X.real, 1, 1)
_vlt = np.frompyfunc(X.lt, 2, 1)
_vle = np.frompyfunc(X.le_tensor, 2, 1)
_veq = np.frompyfunc(X.eq, 2, 1)
_vnot = np.frompyfunc(X.not_, 1, 1)
_vand = np.frompyfunc(X.and_, 2, 1)
_vor = np.frompyfunc(X.or_, 2, 1)
_vite = np.frompyfunc(X.ite, 3, 1)
_vadd = np.frompyfunc(X.add, 2, 1)
_vsub = np.frompyfunc(X.sub, 2, 1)
_vmul = np.frompyfunc(X.mul, 2, 1)
_vdiv = np.frompyfunc(X.div, 2, 1)
_vneg = np.frompyfunc(X.neg, 1, 1)
_vabs = np.frompyfunc(X.abs_, 1, 1)
_vmax = np.frompyfunc(X.maximum, 2, 1)
_vmin = np.frompyfunc(X.minimum, 2, 1)
_vsign = np.frompyfunc(X.sign, 1, 1)
_vfloor = np.frompyfunc(X.floor_, 1, 1)


def _vuf(name):
    return np.frompyfunc(lambda a: X.uf(name, a), 1, 1)


_vtanh = _vuf('tanh')
_vsigmoid = _vuf('sigmoid')
_vexp = _vuf('exp')
_vlog = _vuf('log')
_vsqrt = _vuf('sqrt')
_vsin = _vuf('sin')
_vcos = _vuf('cos')


class Memory(object):
    def __init__(self):
        self.sym = {}     # storage id -> object array over elements (None = concrete)
        self.keep = {}    # storage id -> storage (pins the id)

    def key(self, t):
        return t.untyped_storage()._cdata

    def is_symbolic(self, t):
        s = self.sym.get(self.key(t))
        if s is None:
            return False
        v = self._view(s, t)
        for e in v.flat:
            if e is not None:
                return True
        return False

    def _view(self, s, t):
        off = t.storage_offset()
        return np.lib.stride_tricks.as_strided(s[off:] if t.numel() else s[:0], shape=tuple(t.shape),
                                               strides=tuple(st * s.itemsize for st in t.stride()), writeable=True) if t.numel() else _obj(tuple(t.shape))

    def read(self, t):
        """object array of terms for tensor t"""
        s = self.sym.get(self.key(t))
        single = t.dtype in (torch.float32, torch.float16, torch.bfloat16)
        if s is None:
            return const_array(t)
        v = self._view(s, t)
        out = np.array(v, dtype=object, copy=True).reshape(tuple(t.shape))
        need = [i for i, e in enumerate(out.flat) if e is None]
        if need:
            vals = raw_values(t)
            flat = out.reshape(-1)
            for i in need:
                flat[i] = _const(vals[i], t.dtype)
            out = flat.reshape(tuple(t.shape))
        return out

    def write(self, t, arr):
        """store terms; pure constants are stored as concrete only if the concrete tensor agrees"""
        k = self.key(t)
        arr = np.asarray(arr, dtype=object)
        if arr.shape != tuple(t.shape):
            arr = np.broadcast_to(arr, tuple(t.shape))
        s = self.sym.get(k)
        if s is None:
            if not any(_is_symbolic(e) for e in arr.flat):
                settle(t, arr)
                return
            n = t.untyped_storage().nbytes() // max(1, t.element_size())
            s = _obj((n,))
            self.sym[k] = s
            self.keep[k] = t.untyped_storage()
        if t.numel() == 0:
            return
        v = self._view(s, t)
        v[...] = arr


def settle(t, arr):
    """make the concrete tensor agree with constants the explored path gives it"""
    if t.numel() == 0 or t.dtype.is_complex:
        return
    want = [None if e is None else 1.0 if e.op == 'true' else 0.0 if e.op == 'false' else float(e.args) for e in arr.flat]
    have = raw_values(t)
    if any(w is not None and abs(float(h) - w) > 1e-6 * (1 + abs(w)) for h, w in zip(have, want)):
        vals = [h if w is None else w for h, w in zip(have, want)]
        _concrete(t, np.array(vals, dtype=np.float64).reshape(tuple(t.shape)))


def _is_symbolic(e):
    return e is not None and e.op not in ('const', 'true', 'false')


def _const(v, dtype):
    if dtype == torch.bool:
        return X.TRUE if v else X.FALSE
    if isinstance(v, int):
        return X.const(v)
    if v != v or v in (float('inf'), float('-inf')):
        return X.var('nonfinite!{}'.format(v))
    return X.const(v, single=dtype in (torch.float32, torch.float16, torch.bfloat16))


def const_array(t):
    vals = raw_values(t)
    a = _obj((len(vals),))
    for i, v in enumerate(vals):
        a[i] = _const(v, t.dtype)
    return a.reshape(tuple(t.shape))


class Engine(object):
    """state of one symbolic execution (one path)"""

    current = None

    def __init__(self, ctx):
        self.mem = Memory()
        self.ctx = ctx
        self.random_symbolic = True
        self.ops = {}
        self.nrnd = 0

    def fresh_random(self, t, kind, loc=None, scale=None):
        """loc + scale * (standard draw), the draw being a fresh symbol"""
        vals = raw_values(t)
        f = _obj((len(vals),))
        for i in range(f.size):
            v = vals[i]
            if loc is not None:
                lo, sc = loc[i if loc.size > 1 else 0], scale[i if scale.size > 1 else 0]
                s = self.ctx.concrete_of(sc)
                v = (float(v) - self.ctx.concrete_of(lo)) / s if s else 0.0
                f[i] = X.add(lo, X.mul(sc, self.ctx.new_random(kind, v)))
            else:
                f[i] = self.ctx.new_random(kind, v)
        return f.reshape(tuple(t.shape))


HANDLERS = {}


def handles(*ops):
    def deco(f):
        for o in ops:
            HANDLERS[o] = f
        return f
    return deco


def packet(func):
    return func._overloadpacket


RANDOM = {}
for _n in ('uniform_', 'normal_', 'bernoulli_', 'random_', 'randn', 'rand', 'randn_like', 'rand_like', 'normal',
           'bernoulli', 'randperm', 'randint', 'native_dropout', 'exponential_'):
    if hasattr(aten, _n):
        RANDOM[getattr(aten, _n)] = _n

# pure data movement: elements are copied/duplicated/dropped (or replaced by a constant fill)
MOVES = set(getattr(aten, n) for n in (
    'cat', 'stack', 'repeat', 'flip', 'roll', 'index_select', 'gather', 'index', 'select_backward',
    'slice_backward', 'slice_scatter', 'select_scatter', 'constant_pad_nd', 'reflection_pad1d', 'reflection_pad2d',
    'replication_pad1d', 'replication_pad2d', 'tril', 'triu', 'diag_embed', 'diagonal_backward', 'as_strided_scatter',
    'take', 'repeat_interleave', 'unfold_backward', 'diagonal_copy', 'block_diag', 'new_zeros', 'unbind_copy',
    'column_stack', 'embedding') if hasattr(aten, n))

# operations with an index among their operands
INDEXED = set(getattr(aten, n) for n in ('index_select', 'gather', 'index', 'take', 'repeat_interleave', 'embedding') if hasattr(aten, n))

# results do not depend on element values
SHAPE_ONLY = set(getattr(aten, n) for n in (
    'zeros_like', 'ones_like', 'empty_like', 'full_like', 'new_empty', 'new_zeros', 'new_ones', 'new_full',
    'empty_strided', 'new_empty_strided', 'is_same_size', 'sym_size', 'sym_stride', 'sym_numel', 'is_pinned') if hasattr(aten, n))


class SymMode(TorchDispatchMode):
    def __init__(self, engine):
        super().__init__()
        self.e = engine

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        e = self.e
        pk = packet(func)
        if pk in RANDOM and e.random_symbolic:
            out = func(*args, **kwargs)
            name = RANDOM[pk]
            if name in ('randperm', 'randint'):
                return out
            if name == 'native_dropout':
                raise Unsupported('dropout')
            kind = 'normal' if 'randn' in name or 'normal' in name else 'uniform'
            if torch.is_floating_point(out):
                e.mem.write(out, e.fresh_random(out, kind, *self._location(name, args, kwargs, out)))
            return out

        flat, _ = tree_flatten((args, kwargs))
        symbolic = False
        memsym = e.mem.sym
        for a in flat:
            if isinstance(a, torch.Tensor):
                if a.untyped_storage()._cdata in memsym and e.mem.is_symbolic(a):
                    symbolic = True
                    break
        if not symbolic:
            # a concrete operation may still overwrite symbolic memory
            if func._schema.is_mutable:
                out = func(*args, **kwargs)
                for arg, val in zip(func._schema.arguments, args):
                    if arg.alias_info is not None and arg.alias_info.is_write and isinstance(val, torch.Tensor):
                        if e.mem.key(val) in memsym:
                            e.mem.write(val, const_array(val))
                return out
            return func(*args, **kwargs)

        e.ops[str(pk)] = e.ops.get(str(pk), 0) + 1
        if func.is_view or pk in (aten.detach, aten.alias, aten._unsafe_view, aten.lift_fresh, aten._reshape_alias,
                                  aten.view, aten.expand):
            out = func(*args, **kwargs)
            if pk is aten._unsafe_view and e.mem.key(out) != e.mem.key(args[0]):
                e.mem.write(out, e.mem.read(args[0]).reshape(tuple(out.shape)))
            return out
        if pk in SHAPE_ONLY or pk in (aten.squeeze_, aten.unsqueeze_, aten.transpose_, aten.t_, aten.swapaxes_, aten.swapdims_):
            return func(*args, **kwargs)
        if pk is aten._local_scalar_dense:
            return self._scalar(args[0])
        h = HANDLERS.get(pk)
        if h is not None:
            return h(self, func, args, kwargs)
        if pk in MOVES:
            return self._move(func, args, kwargs)
        name = func._schema.name.split('::')[1]
        if name.endswith('_') and not name.endswith('__'):
            base = getattr(aten, name[:-1], None)
            hb = HANDLERS.get(base)
            if hb is not None:
                return self._inplace(func, hb, base, args, kwargs)
        # torch's own decompositions
        from torch._decomp import decomposition_table
        d = decomposition_table.get(func)
        if d is not None:
            with self:
                return d(*args, **kwargs)
        raise Unsupported('aten operation {} on symbolic data'.format(func))

    # -------------------------------------------------- helpers
    def _location(self, name, args, kwargs, out):
        """location and scale of a draw that is not a standard one"""
        if name not in ('normal_', 'normal', 'uniform_'):
            return ()
        rest = list(args[1:] if name.endswith('_') else args)
        n = ('from', 'to') if name == 'uniform_' else ('mean', 'std')
        a = rest[0] if rest else kwargs.get(n[0], 0.0)
        b = rest[1] if len(rest) > 1 else kwargs.get(n[1], 1.0)
        if (a, b) == (0.0, 1.0) if not isinstance(a, torch.Tensor) and not isinstance(b, torch.Tensor) else False:
            return ()
        a, b = (np.broadcast_to(self.rd(v), tuple(out.shape)).reshape(-1) for v in (a, b))
        if name == 'uniform_':
            b = np.array([X.sub(y, x) for x, y in zip(a, b)], dtype=object)
        return a, b

    def rd(self, a):
        if isinstance(a, torch.Tensor):
            return self.e.mem.read(a)
        if isinstance(a, X.Term):
            r = _obj(())
            r[()] = a
            return r
        r = _obj(())
        r[()] = a if X.infinite(a) else X.lift(a)
        return r

    def wr(self, t, arr):
        self.e.mem.write(t, arr)
        return t

    def _scalar(self, t):
        v = self.e.mem.read(t).reshape(-1)[0]
        if v.op in ('true', 'false'):
            return v.op == 'true'
        if v.op == 'const':
            r = v.args
            if t.dtype in (torch.int64, torch.int32):
                return int(r)
            return float(r)
        if t.dtype == torch.bool:
            return bool(v)
        if t.dtype in (torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8):
            return X.floored(v)
        raise Unsupported('concrete value of a symbolic number requested')

    def _inplace(self, func, hb, base, args, kwargs):
        target = args[0]
        arr = hb(self, None, args, kwargs, symonly=True)
        # concrete effect
        out = func(*args, **kwargs)
        self.wr(target, np.broadcast_to(arr, tuple(target.shape)))
        return out

    def _move(self, func, args, kwargs):
        """run the same operation on element identifiers"""
        table = [None]
        indexed = packet(func) in INDEXED

        def ids(t):
            if not isinstance(t, torch.Tensor):
                return t
            if indexed and t.dtype in (torch.int64, torch.int32, torch.bool, torch.uint8) and not self.e.mem.is_symbolic(t):
                return t
            arr = self.e.mem.read(t).reshape(-1)
            start = len(table)
            table.extend(arr.tolist())
            return torch.arange(start, start + arr.size, dtype=torch.float64).reshape(tuple(t.shape))
        iargs = tree_map(ids, args)
        ikwargs = tree_map(ids, kwargs)
        pk = packet(func)
        fillv = X.ZERO
        if pk is aten.constant_pad_nd:
            v = args[2] if len(args) > 2 else kwargs.get('value', 0)
            fillv = X.lift(v)
            iargs = (iargs[0], iargs[1], 0.0)
        if 'dtype' in ikwargs:
            ikwargs = dict(ikwargs)
            ikwargs['dtype'] = torch.float64
        out = func(*args, **kwargs)
        iout = func(*iargs, **ikwargs)
        outs = [out] if isinstance(out, torch.Tensor) else list(out)
        iouts = [iout] if isinstance(iout, torch.Tensor) else list(iout)
        for o, io in zip(outs, iouts):
            idx = io.reshape(-1).to(torch.int64).tolist()
            a = _obj((len(idx),))
            for i, k in enumerate(idx):
                a[i] = table[k] if k != 0 else X.FALSE if o.dtype == torch.bool and fillv is X.ZERO else fillv
            self.wr(o, a.reshape(tuple(o.shape)))
        return out


def _simple(fn):
    """handler from a function on object arrays; computes the concrete result too"""
    def h(mode, func, args, kwargs, symonly=False):
        arr = fn(mode, args, kwargs)
        if symonly:
            return arr
        out = func(*args, **kwargs)
        outarg = kwargs.get('out')
        return mode.wr(out, np.broadcast_to(arr, tuple(out.shape)))
    return h


def unary(f):
    return _simple(lambda m, a, k: f(m.rd(a[0])))


def reg(names, h):
    for n in names.split():
        if hasattr(aten, n):
            HANDLERS[getattr(aten, n)] = h


def _alpha(m, a, k, f):
    b = m.rd(a[1])
    al = k.get('alpha', a[2] if len(a) > 2 else 1)
    if al != 1:
        b = _vmul(b, X.lift(al))
    return f(m.rd(a[0]), b)


reg('add', _simple(lambda m, a, k: _alpha(m, a, k, _vadd)))
reg('sub subtract', _simple(lambda m, a, k: _alpha(m, a, k, _vsub)))
reg('rsub', _simple(lambda m, a, k: _vsub(m.rd(a[1]), _vmul(m.rd(a[0]), X.lift(k.get('alpha', a[2] if len(a) > 2 else 1))))))
reg('mul multiply', _simple(lambda m, a, k: _vmul(m.rd(a[0]), m.rd(a[1]))))


def _div(m, a, k):
    r = _vdiv(m.rd(a[0]), m.rd(a[1]))
    if k.get('rounding_mode') == 'floor':
        return _vfloor(r)
    if k.get('rounding_mode') == 'trunc':
        return np.frompyfunc(lambda t: X.const(X.truncated(t)), 1, 1)(r)
    return r


reg('div true_divide', _simple(_div))
reg('neg', unary(_vneg))
reg('abs', unary(_vabs))
reg('sign sgn', unary(_vsign))
reg('tanh', unary(_vtanh))
reg('sigmoid', unary(_vsigmoid))
reg('exp', unary(_vexp))
reg('log', unary(_vlog))
reg('log2', unary(lambda x: _vdiv(_vlog(x), X.uf('log', X.const(2)))))
reg('sqrt', unary(_vsqrt))
reg('sin', unary(_vsin))
reg('cos', unary(_vcos))
reg('rsqrt', unary(lambda x: _vdiv(X.ONE, _vsqrt(x))))
reg('reciprocal', unary(lambda x: _vdiv(X.ONE, x)))
reg('square', unary(lambda x: _vmul(x, x)))
reg('relu', unary(lambda x: _vite(_vlt(X.ZERO, x), x, X.ZERO)))
reg('logical_not bitwise_not', unary(_vnot))
reg('clone contiguous lift_fresh_copy alias_copy detach_copy view_copy', unary(lambda x: x))
reg('expm1', unary(lambda x: _vsub(_vexp(x), X.ONE)))
reg('silu', unary(lambda x: _vmul(x, _vsigmoid(x))))


reg('cosh', unary(lambda x: _vmul(X.const(0.5), _vadd(_vexp(x), _vexp(_vneg(x))))))
reg('sinh', unary(lambda x: _vmul(X.const(0.5), _vsub(_vexp(x), _vexp(_vneg(x))))))
reg('heaviside', _simple(lambda m, a, k: _vite(_vlt(X.ZERO, m.rd(a[0])), X.ONE,
                                              X.ZERO if X.GENERIC[0] else _vite(_veq(m.rd(a[0]), X.ZERO), m.rd(a[1]), X.ZERO))))


def _ceil(up):
    def f(x):
        dec = np.frompyfunc(lambda t: decide_integer(t, up), 1, 1)
        return dec(x)
    return f


def decide_integer(t, up):
    """ceil/floor of a symbolic term, its integer value explored"""
    return X.const(-X.floored(X.neg(t)) if up else X.floored(t))


def _vround(x, decimals):
    if decimals:
        raise X.SymbolicError('rounding to decimals')
    return np.frompyfunc(lambda t: X.const(X.rounded(t)), 1, 1)(x)


reg('ceil', unary(_ceil(True)))
reg('floor', unary(_ceil(False)))
reg('round', _simple(lambda m, a, k: _vround(m.rd(a[0]), k.get('decimals', a[1] if len(a) > 1 else 0))))
reg('trunc fix', unary(np.frompyfunc(lambda t: X.const(X.truncated(t)), 1, 1)))
reg('floor_divide', _simple(lambda m, a, k: _vfloor(_vdiv(m.rd(a[0]), m.rd(a[1])))))
reg('remainder', _simple(lambda m, a, k: np.frompyfunc(lambda x, y: x % y, 2, 1)(m.rd(a[0]), m.rd(a[1]))))


def _pow(m, a, k):
    e = a[1]
    if isinstance(e, torch.Tensor):
        ea = m.rd(e)
        return np.frompyfunc(X.power, 2, 1)(m.rd(a[0]), ea)
    ee = X.lift(e)
    return np.frompyfunc(lambda t: X.power(t, ee), 1, 1)(m.rd(a[0]))


reg('pow', _simple(_pow))
reg('lt less', _simple(lambda m, a, k: _vlt(m.rd(a[0]), m.rd(a[1]))))
reg('le less_equal', _simple(lambda m, a, k: _vle(m.rd(a[0]), m.rd(a[1]))))
reg('gt greater', _simple(lambda m, a, k: _vlt(m.rd(a[1]), m.rd(a[0]))))
reg('ge greater_equal', _simple(lambda m, a, k: _vle(m.rd(a[1]), m.rd(a[0]))))
reg('eq', _simple(lambda m, a, k: _veq(m.rd(a[0]), m.rd(a[1]))))
reg('ne not_equal', _simple(lambda m, a, k: _vnot(_veq(m.rd(a[0]), m.rd(a[1])))))
reg('logical_and bitwise_and __and__', _simple(lambda m, a, k: _vand(m.rd(a[0]), m.rd(a[1]))))
reg('logical_or bitwise_or __or__', _simple(lambda m, a, k: _vor(m.rd(a[0]), m.rd(a[1]))))
reg('maximum', _simple(lambda m, a, k: _vmax(m.rd(a[0]), m.rd(a[1]))))
reg('minimum', _simple(lambda m, a, k: _vmin(m.rd(a[0]), m.rd(a[1]))))
reg('tanh_backward', _simple(lambda m, a, k: _vmul(m.rd(a[0]), _vsub(X.ONE, _vmul(m.rd(a[1]), m.rd(a[1]))))))
reg('sigmoid_backward', _simple(lambda m, a, k: _vmul(m.rd(a[0]), _vmul(m.rd(a[1]), _vsub(X.ONE, m.rd(a[1]))))))


def _below(r, th):
    # r is the result of relu: relu(x) <= 0 iff not 0 < x
    if th is X.ZERO and r.op == 'ite' and r.args[2] is X.ZERO and r.args[0].op == 'lt' and \
            r.args[0].args[0] is X.ZERO and r.args[0].args[1] is r.args[1]:
        return X.not_(r.args[0])
    return X.le(r, th)


reg('threshold_backward', _simple(lambda m, a, k: _vite(np.frompyfunc(lambda r: _below(r, X.lift(a[2])), 1, 1)(m.rd(a[1])), X.ZERO, m.rd(a[0]))))
reg('isnan isinf', _simple(lambda m, a, k: np.broadcast_to(np.array(X.FALSE, dtype=object), tuple(a[0].shape))))
reg('isfinite', _simple(lambda m, a, k: np.broadcast_to(np.array(X.TRUE, dtype=object), tuple(a[0].shape))))


def _leaky(m, a, k):
    s = X.lift(a[1] if len(a) > 1 else k.get('negative_slope', 0.01))
    x = m.rd(a[0])
    return _vite(_vlt(X.ZERO, x), x, _vmul(s, x))


reg('leaky_relu', _simple(_leaky))


def _where(m, a, k):
    if len(a) < 3:
        raise Unsupported('where with one argument')
    return _vite(m.rd(a[0]), m.rd(a[1]), m.rd(a[2]))


reg('where', _simple(_where))


def _masked_fill(m, a, k):
    return _vite(m.rd(a[1]), m.rd(a[2]), m.rd(a[0]))


reg('masked_fill', _simple(_masked_fill))


def _clamp(m, a, k):
    x = m.rd(a[0])
    lo = k.get('min', a[1] if len(a) > 1 else None)
    hi = k.get('max', a[2] if len(a) > 2 else None)
    if lo is not None:
        x = _vmax(x, m.rd(lo))
    if hi is not None:
        x = _vmin(x, m.rd(hi))
    return x


reg('clamp clip', _simple(_clamp))
reg('clamp_min', _simple(lambda m, a, k: _vmax(m.rd(a[0]), m.rd(a[1]))))
reg('clamp_max', _simple(lambda m, a, k: _vmin(m.rd(a[0]), m.rd(a[1]))))
reg('addcmul', _simple(lambda m, a, k: _vadd(m.rd(a[0]), _vmul(X.lift(k.get('value', 1)), _vmul(m.rd(a[1]), m.rd(a[2]))))))
reg('addcdiv', _simple(lambda m, a, k: _vadd(m.rd(a[0]), _vmul(X.lift(k.get('value', 1)), _vdiv(m.rd(a[1]), m.rd(a[2]))))))


def _lerp(m, a, k):
    x = m.rd(a[0])
    return _vadd(x, _vmul(m.rd(a[2]), _vsub(m.rd(a[1]), x)))


reg('lerp', _simple(_lerp))


# ------------------------------------------------------------ type / copies

@handles(aten._to_copy)
def _to_copy(mode, func, args, kwargs):
    src = args[0]
    out = func(*args, **kwargs)
    arr = mode.rd(src)
    if out.dtype == torch.bool:
        arr = np.frompyfunc(X.boolean, 1, 1)(arr)
    else:
        if not out.dtype.is_floating_point and src.dtype.is_floating_point and not out.dtype.is_complex:
            arr = np.frompyfunc(lambda t: t if t.op == 'const' and t.args.denominator == 1 else _trunc(t), 1, 1)(arr)
        arr = _real(arr)
    return mode.wr(out, arr)


def _trunc(t):
    if t.op == 'const':
        return X.const(int(t.args))
    raise Unsupported('conversion of symbolic value to integer')


@handles(aten.copy_)
def _copy_(mode, func, args, kwargs):
    dst, src = args[0], args[1]
    arr = mode.rd(src)
    out = func(*args, **kwargs)
    arr = np.frompyfunc(X.boolean, 1, 1)(arr) if dst.dtype == torch.bool else _real(arr)
    mode.wr(dst, np.broadcast_to(arr, tuple(dst.shape)))
    return out


@handles(aten._copy_from, aten.copy)
def _copyf(mode, func, args, kwargs):
    out = func(*args, **kwargs)
    arr = mode.rd(args[1])
    return mode.wr(out, np.broadcast_to(arr, tuple(out.shape)))


@handles(aten.fill_, aten.zero_)
def _fill_(mode, func, args, kwargs):
    dst = args[0]
    v = mode.rd(args[1]) if len(args) > 1 else mode.rd(0)
    out = func(*args, **kwargs)
    mode.wr(dst, np.broadcast_to(v, tuple(dst.shape)))
    return out


@handles(aten.masked_fill_)
def _masked_fill_(mode, func, args, kwargs):
    dst = args[0]
    arr = _vite(mode.rd(args[1]), mode.rd(args[2]), mode.rd(dst))
    out = func(*args, **kwargs)
    mode.wr(dst, arr)
    return out


def _settled_mask(mode, i):
    """a symbolic Boolean mask: every entry is explored"""
    conc = [bool(b) for b in mode.rd(i).reshape(-1)]
    return torch.tensor(conc).reshape(tuple(i.shape))


@handles(aten.index_put_, aten._index_put_impl_, aten.index_put)
def _index_put(mode, func, args, kwargs):
    dst, indices, values = args[0], list(args[1]), args[2]
    acc = args[3] if len(args) > 3 else kwargs.get('accumulate', False)
    for n, i in enumerate(indices):
        if i is not None and mode.e.mem.is_symbolic(i):
            if i.dtype == torch.bool and values.numel() == 1 and len(indices) == 1 and not acc:
                mask = mode.rd(i)
                mask = mask.reshape(mask.shape + (1,) * (dst.dim() - i.dim()))
                arr = _vite(mask, mode.rd(values).reshape(()), mode.rd(dst))
                out = func(*args, **kwargs)
                mode.wr(out, arr)
                return out
            if i.dtype != torch.bool:
                raise Unsupported('symbolic index')
            indices[n] = _settled_mask(mode, i)
    args = (dst, indices) + tuple(args[2:])
    ids = torch.arange(dst.numel(), dtype=torch.int64).reshape(tuple(dst.shape))
    sel = aten.index(ids, indices)
    arr = mode.rd(dst)
    vals = np.broadcast_to(mode.rd(values), tuple(sel.shape)).reshape(-1)
    flat = arr.reshape(-1).copy()
    for k, v in zip(sel.reshape(-1).tolist(), vals):
        flat[k] = X.add(flat[k], v) if acc else v
    out = func(*args, **kwargs)
    mode.wr(out, flat.reshape(tuple(dst.shape)))
    return out


@handles(aten.index)
def _index(mode, func, args, kwargs):
    src, indices = args[0], args[1]
    # symbolic Boolean mask: fork on every entry
    new = []
    for i in indices:
        if i is not None and i.dtype == torch.bool and mode.e.mem.is_symbolic(i):
            new.append(_settled_mask(mode, i))
        elif i is not None and mode.e.mem.is_symbolic(i):
            raise Unsupported('symbolic index')
        else:
            new.append(i)
    return mode._move(func, (src, new), kwargs)


# ------------------------------------------------------------ reductions

def _dims(d, n):
    if d is None:
        return tuple(range(n))
    if isinstance(d, int):
        d = [d]
    if len(d) == 0:
        return tuple(range(n))
    return tuple(x % n if n else 0 for x in d)


def _reduce(arr, dims, keep, f):
    n = arr.ndim
    dims = sorted(set(dims))
    if n == 0:
        r = _obj(())
        r[()] = f([arr[()]])
        return r
    rest = [i for i in range(n) if i not in dims]
    a = np.transpose(arr, rest + list(dims))
    shp = [arr.shape[i] for i in rest]
    a = a.reshape(shp + [-1])
    out = _obj(tuple(shp))
    for idx in np.ndindex(*shp):
        out[idx] = f(list(a[idx]))
    if keep:
        out = out.reshape([1 if i in dims else arr.shape[i] for i in range(n)])
    return out


def _h_sum(m, a, k):
    x = m.rd(a[0])
    d = a[1] if len(a) > 1 else k.get('dim')
    keep = a[2] if len(a) > 2 else k.get('keepdim', False)
    return _reduce(x, _dims(d, x.ndim), keep, X.addn)


def _h_mean(m, a, k):
    x = m.rd(a[0])
    d = a[1] if len(a) > 1 else k.get('dim')
    keep = a[2] if len(a) > 2 else k.get('keepdim', False)
    return _reduce(x, _dims(d, x.ndim), keep, lambda v: X.mul(X.const(__import__('fractions').Fraction(1, len(v))), X.addn(v)))


reg('sum', _simple(_h_sum))
reg('mean', _simple(_h_mean))


def _h_all(m, a, k):
    x = np.frompyfunc(X.boolean, 1, 1)(m.rd(a[0]))
    d = a[1] if len(a) > 1 else k.get('dim')
    keep = a[2] if len(a) > 2 else k.get('keepdim', False)

    def f(v):
        r = X.TRUE
        for b in v:
            r = X.and_(r, b)
        return r
    return _reduce(x, _dims(d, x.ndim), keep, f)


def _h_any(m, a, k):
    x = np.frompyfunc(X.boolean, 1, 1)(m.rd(a[0]))
    d = a[1] if len(a) > 1 else k.get('dim')
    keep = a[2] if len(a) > 2 else k.get('keepdim', False)

    def f(v):
        r = X.FALSE
        for b in v:
            r = X.or_(r, b)
        return r
    return _reduce(x, _dims(d, x.ndim), keep, f)


reg('all', _simple(_h_all))
reg('any', _simple(_h_any))


def _h_prod(m, a, k):
    x = m.rd(a[0])
    d = a[1] if len(a) > 1 and isinstance(a[1], int) else k.get('dim')
    keep = a[2] if len(a) > 2 else k.get('keepdim', False)

    def f(v):
        r = X.ONE
        for b in v:
            r = X.mul(r, b)
        return r
    return _reduce(x, _dims(d, x.ndim), keep, f)


reg('prod', _simple(_h_prod))


def _h_amax(f2):
    def h(m, a, k):
        x = m.rd(a[0])
        d = a[1] if len(a) > 1 else k.get('dim')
        keep = a[2] if len(a) > 2 else k.get('keepdim', False)

        def f(v):
            r = v[0]
            for b in v[1:]:
                r = f2(r, b)
            return r
        return _reduce(x, _dims(d, x.ndim), keep, f)
    return h


reg('amax', _simple(_h_amax(X.maximum)))
reg('amin', _simple(_h_amax(X.minimum)))


@handles(aten.max, aten.min)
def _h_max(mode, func, args, kwargs):
    if func in (aten.max.default, aten.min.default):
        f2 = X.maximum if func is aten.max.default else X.minimum
        arr = mode.rd(args[0]).reshape(-1)
        r = arr[0]
        for b in arr[1:]:
            r = f2(r, b)
        out = func(*args, **kwargs)
        o = _obj(())
        o[()] = r
        return mode.wr(out, o)
    if func in (aten.max.dim, aten.min.dim):
        x = mode.rd(args[0])
        d = args[1] % max(x.ndim, 1)
        keep = args[2] if len(args) > 2 else kwargs.get('keepdim', False)
        outs = func(*args, **kwargs)
        rows = np.moveaxis(x, d, -1)
        vals, ids = _obj(rows.shape[:-1]), np.zeros(rows.shape[:-1], dtype=np.int64)
        for i in np.ndindex(*rows.shape[:-1]):
            ids[i] = _extremal(list(rows[i]), func is aten.max.dim)
            vals[i] = rows[i][ids[i]]
        _concrete(outs[1], ids.reshape(tuple(outs[1].shape)))
        mode.wr(outs[0], vals.reshape(tuple(outs[0].shape)))
        return outs
    raise Unsupported(str(func))


def _extremal(v, largest=True):
    """position of the first largest (smallest) element: the comparisons are explored"""
    best = 0
    for i in range(1, len(v)):
        if bool(X.lt(v[best], v[i]) if largest else X.lt(v[i], v[best])):
            best = i
    return best


def _ranked(v, descending):
    """positions in sorted order: insertion sort, the comparisons are explored"""
    out = []
    for i in range(len(v)):
        j = len(out)
        while j > 0 and bool(X.lt(v[out[j - 1]], v[i]) if descending else X.lt(v[i], v[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return out


@handles(aten.sort, aten.topk)
def _h_sort(mode, func, args, kwargs):
    x = mode.rd(args[0])
    name = func.overloadpacket
    names = ['self'] + (['k', 'dim', 'largest', 'sorted'] if name is aten.topk else ['stable', 'dim', 'descending'] if 'stable' in func._overloadname else ['dim', 'descending'])
    p = dict(zip(names, args))
    p.update(kwargs)
    d = p.get('dim', -1) % max(x.ndim, 1)
    outs = func(*args, **kwargs)
    rows = np.moveaxis(x.reshape(x.shape or (1,)), d, -1)
    n = p['k'] if name is aten.topk else rows.shape[-1]
    vals, ids = _obj(rows.shape[:-1] + (n,)), np.zeros(rows.shape[:-1] + (n,), dtype=np.int64)
    for i in np.ndindex(*rows.shape[:-1]):
        order = _ranked(list(rows[i]), p.get('largest', True) if name is aten.topk else p.get('descending', False))[:n]
        for k, j in enumerate(order):
            vals[i + (k,)], ids[i + (k,)] = rows[i][j], j
    _concrete(outs[1], np.moveaxis(ids, -1, d).reshape(tuple(outs[1].shape)))
    mode.wr(outs[0], np.moveaxis(vals, -1, d).reshape(tuple(outs[0].shape)))
    return outs


@handles(aten.argmax, aten.argmin)
def _h_argmax(mode, func, args, kwargs):
    x = mode.rd(args[0])
    d = args[1] if len(args) > 1 else kwargs.get('dim')
    largest = func.overloadpacket is aten.argmax
    out = func(*args, **kwargs)
    if d is None:
        ids = np.array(_extremal(list(x.reshape(-1)), largest))
    else:
        rows = np.moveaxis(x, d, -1)
        ids = np.zeros(rows.shape[:-1], dtype=np.int64)
        for i in np.ndindex(*ids.shape):
            ids[i] = _extremal(list(rows[i]), largest)
    _concrete(out, ids.reshape(tuple(out.shape)))
    return out


@handles(aten.nonzero)
def _h_nonzero(mode, func, args, kwargs):
    x = mode.rd(args[0])
    hit = [list(i) for i in np.ndindex(*x.shape) if bool(x[i])]
    return torch.tensor(hit, dtype=torch.int64).reshape(len(hit), x.ndim)


@handles(aten.masked_select)
def _h_masked_select(mode, func, args, kwargs):
    x, m = torch.broadcast_tensors(args[0], args[1])
    return x[m]


@handles(aten.searchsorted, aten.bucketize)
def _h_searchsorted(mode, func, args, kwargs):
    """number of boundaries before the value: the comparisons are explored"""
    bucket = func.overloadpacket is aten.bucketize
    seq, val = (args[1], args[0]) if bucket else (args[0], args[1])
    right = kwargs.get('right', False) or kwargs.get('side') == 'right'
    out = func(*args, **kwargs)
    s, v = mode.rd(seq), mode.rd(val)
    ids = np.zeros(v.shape, dtype=np.int64)
    for i in np.ndindex(*v.shape):
        row = s if s.ndim == 1 else s[i[:-1]]
        n = 0
        while n < len(row) and bool(X.le(row[n], v[i]) if right else X.lt(row[n], v[i])):
            n += 1
        ids[i] = n
    _concrete(out, ids.reshape(tuple(out.shape)))
    return out


def _concrete(t, ids):
    from torch.utils._python_dispatch import _disable_current_modes
    with _disable_current_modes():
        t.copy_(torch.from_numpy(np.array(ids, order='C')))


@handles(aten.adaptive_max_pool2d, aten.max_pool2d_with_indices)
def _h_pool(mode, func, args, kwargs):
    """the windows are read off the concrete operator, applied to positions in increasing and decreasing order"""
    x = args[0]
    xa = mode.rd(x)
    outs = func(*args, **kwargs)
    H, W = x.shape[-2:]
    oh, ow = outs[0].shape[-2:]
    from torch.utils._python_dispatch import _disable_current_modes
    with _disable_current_modes():
        # which pixels does a window see: mark one pixel at a time
        eye = torch.eye(H * W, dtype=torch.float64).reshape(H * W, 1, H, W)
        seen = func(eye, *args[1:], **kwargs)[0].reshape(H * W, oh, ow).numpy() > 0.5
    flat = xa.reshape(xa.shape[:-2] + (H * W,))
    vals, ids = _obj(tuple(outs[0].shape)), np.zeros(tuple(outs[0].shape), dtype=np.int64)
    for i in np.ndindex(*xa.shape[:-2]):
        for a in range(oh):
            for b in range(ow):
                cand = [k for k in range(H * W) if seen[k, a, b]]
                j = cand[_extremal([flat[i][k] for k in cand])]
                vals[i + (a, b)] = flat[i][j]
                ids[i + (a, b)] = j
    _concrete(outs[1], ids)
    mode.wr(outs[0], vals)
    return outs


@handles(aten.adaptive_max_pool2d_backward, aten.max_pool2d_with_indices_backward)
def _h_pool_backward(mode, func, args, kwargs):
    go, x, ids = args[0], args[1], args[-1]
    out = func(*args, **kwargs)
    from torch.utils._python_dispatch import _disable_current_modes
    with _disable_current_modes():
        idx = ids.numpy()
    ga = mode.rd(go)
    W = x.shape[-1]
    return mode.wr(out, _accumulate(tuple(x.shape), ((i[:-2] + divmod(int(idx[i]), W), ga[i]) for i in np.ndindex(*ga.shape))))


def _h_cumsum(m, a, k):
    x = m.rd(a[0])
    d = a[1]
    out = x.copy()
    sl = [slice(None)] * x.ndim
    for i in range(1, x.shape[d]):
        cur = list(sl)
        prev = list(sl)
        cur[d] = i
        prev[d] = i - 1
        out[tuple(cur)] = _vadd(out[tuple(prev)], x[tuple(cur)])
    return out


reg('cumsum', _simple(_h_cumsum))


# ------------------------------------------------------------ linear algebra

def matmul(a, b):
    """object arrays, (..,n,k)x(..,k,m)"""
    n, k = a.shape[-2], a.shape[-1]
    mm = b.shape[-1]
    lead = a.shape[:-2]
    out = _obj(lead + (n, mm))
    for idx in np.ndindex(*lead):
        A = a[idx]
        B = b[idx]
        for i in range(n):
            row = A[i]
            for j in range(mm):
                out[idx + (i, j)] = X.addn([X.mul(row[q], B[q, j]) for q in range(k)])
    return out


reg('mm', _simple(lambda m, a, k: matmul(m.rd(a[0]), m.rd(a[1]))))
reg('bmm', _simple(lambda m, a, k: matmul(m.rd(a[0]), m.rd(a[1]))))
reg('mv', _simple(lambda m, a, k: matmul(m.rd(a[0]), m.rd(a[1])[:, None])[:, 0]))


def _dot(m, a, k):
    o = _obj(())
    o[()] = X.addn(list(_vmul(m.rd(a[0]), m.rd(a[1]))))
    return o


reg('dot vdot', _simple(_dot))


def _addmm(m, a, k):
    r = matmul(m.rd(a[1]), m.rd(a[2]))
    al = k.get('alpha', 1)
    be = k.get('beta', 1)
    if al != 1:
        r = _vmul(r, X.lift(al))
    c = m.rd(a[0])
    if be != 1:
        c = _vmul(c, X.lift(be))
    return _vadd(c, r)


reg('addmm baddbmm', _simple(_addmm))
reg('addmv', _simple(lambda m, a, k: _vadd(m.rd(a[0]), matmul(m.rd(a[1]), m.rd(a[2])[:, None])[:, 0])))


def _linear(m, a, k):
    x = m.rd(a[0])
    w = m.rd(a[1])
    lead = x.shape[:-1]
    r = matmul(x.reshape(-1, x.shape[-1]), w.T).reshape(lead + (w.shape[0],))
    if len(a) > 2 and a[2] is not None:
        r = _vadd(r, m.rd(a[2]))
    return r


reg('linear', _simple(_linear))


def _linspace_arr(m, a, k):
    s = m.rd(a[0]).reshape(-1)[0]
    e = m.rd(a[1]).reshape(-1)[0]
    n = a[2]
    out = _obj((n,))
    from fractions import Fraction
    for i in range(n):
        if n == 1:
            out[i] = s
        else:
            out[i] = X.add(X.mul(X.const(Fraction(n - 1 - i, n - 1)), s), X.mul(X.const(Fraction(i, n - 1)), e))
    return out


reg('linspace', _simple(_linspace_arr))


@handles(aten.equal)
def _h_equal(mode, func, args, kwargs):
    a, b = mode.rd(args[0]), mode.rd(args[1])
    if a.shape != b.shape:
        return False
    r = X.TRUE
    for x, y in zip(a.flat, b.flat):
        r = X.and_(r, X.eq(x, y))
    return bool(r)


# ------------------------------------------------------------ convolution

def _conv_index(xs, ws, os_, stride, padding, dilation, groups):
    """triples (o,x,w) of multi-indices of an ordinary convolution out[o]+=x*w"""
    nd = len(xs) - 2
    N, C = xs[0], xs[1]
    O, Cg = ws[0], ws[1]
    og = O // groups
    for n in range(N):
        for o in range(O):
            g = o // og
            for sp in np.ndindex(*os_[2:]):
                for c in range(Cg):
                    for kk in np.ndindex(*ws[2:]):
                        p = tuple(sp[d] * stride[d] - padding[d] + kk[d] * dilation[d] for d in range(nd))
                        if all(0 <= p[d] < xs[2 + d] for d in range(nd)):
                            yield (n, o) + sp, (n, g * Cg + c) + p, (o, c) + kk


def _ntuple(v, n):
    v = list(v)
    return v * n if len(v) == 1 else v


def _accumulate(shape, contributions):
    d = {}
    for k, v in contributions:
        d.setdefault(k, []).append(v)
    out = _obj(tuple(shape))
    for idx in np.ndindex(*tuple(shape)):
        out[idx] = X.addn(d[idx]) if idx in d else X.ZERO
    return out


@handles(aten.convolution)
def _convolution(mode, func, args, kwargs):
    x, w, b, stride, padding, dilation, transposed, outpad, groups = args
    out = func(*args, **kwargs)
    xa, wa = mode.rd(x), mode.rd(w)
    nd = x.dim() - 2
    st, pd, dl = _ntuple(stride, nd), _ntuple(padding, nd), _ntuple(dilation, nd)
    if not transposed:
        r = _accumulate(out.shape, ((o, X.mul(xa[i], wa[k])) for o, i, k in
                                    _conv_index(tuple(x.shape), tuple(w.shape), tuple(out.shape), st, pd, dl, groups)))
    else:
        # transposed convolution is the adjoint: roles of input and output swap
        r = _accumulate(out.shape, ((i, X.mul(xa[o], wa[k])) for o, i, k in
                                    _conv_index(tuple(out.shape), tuple(w.shape), tuple(x.shape), st, pd, dl, groups)))
    if b is not None:
        r = _vadd(r, mode.rd(b).reshape((1, -1) + (1,) * nd))
    return mode.wr(out, r)


@handles(aten.convolution_backward)
def _convolution_backward(mode, func, args, kwargs):
    go, x, w, bias_sizes, stride, padding, dilation, transposed, outpad, groups, mask = args
    outs = func(*args, **kwargs)
    ga, xa, wa = mode.rd(go), mode.rd(x), mode.rd(w)
    nd = x.dim() - 2
    st, pd, dl = _ntuple(stride, nd), _ntuple(padding, nd), _ntuple(dilation, nd)
    if transposed:
        # the forward map is the adjoint of the convolution taking (shape of go) to (shape of x)
        trip = [(i, o, k) for o, i, k in _conv_index(tuple(go.shape), tuple(w.shape), tuple(x.shape), st, pd, dl, groups)]
    else:
        trip = list(_conv_index(tuple(x.shape), tuple(w.shape), tuple(go.shape), st, pd, dl, groups))
    if mask[0]:
        mode.wr(outs[0], _accumulate(x.shape, ((i, X.mul(ga[o], wa[k])) for o, i, k in trip)))
    if mask[1]:
        mode.wr(outs[1], _accumulate(w.shape, ((k, X.mul(ga[o], xa[i])) for o, i, k in trip)))
    if mask[2]:
        mode.wr(outs[2], _reduce(ga, [0] + list(range(2, 2 + nd)), False, X.addn))
    return outs


# ------------------------------------------------------------ moments and normalisation

@handles(aten.replication_pad1d_backward, aten.replication_pad2d_backward, aten.replication_pad3d_backward,
         aten.reflection_pad1d_backward, aten.reflection_pad2d_backward, aten.reflection_pad3d_backward)
def _pad_backward(mode, func, args, kwargs):
    grad, x, padding = args[0], args[1], args[2]
    fw = getattr(aten, func._schema.name.split('::')[1].replace('_backward', ''))
    ids = fw(torch.arange(x.numel(), dtype=torch.float64).reshape(tuple(x.shape)), padding).reshape(-1).to(torch.int64).tolist()
    g = mode.rd(grad).reshape(-1)
    acc = [[] for _ in range(x.numel())]
    for i, v in zip(ids, g):
        acc[i].append(v)
    a = _obj((x.numel(),))
    for i, vs in enumerate(acc):
        a[i] = X.addn(vs) if vs else X.ZERO
    return mode.wr(func(*args, **kwargs), a.reshape(tuple(x.shape)))


def _var_of(v, corr):
    from fractions import Fraction
    n = len(v)
    mu = X.mul(X.const(Fraction(1, n)), X.addn(v))
    dev = [X.sub(e, mu) for e in v]
    return X.div(X.addn([X.mul(d, d) for d in dev]), X.const(n - corr))


def _var_args(a, k):
    """(dims, correction, keepdim) of the var/std overloads"""
    d, corr, keep = k.get('dim'), k.get('correction', 1), k.get('keepdim', False)
    rest = list(a[1:])
    if rest and isinstance(rest[0], bool):
        corr = 1 if rest[0] else 0
    elif rest:
        d = rest[0]
        if len(rest) > 1:
            corr = int(rest[1])
        if len(rest) > 2:
            keep = rest[2]
    if 'unbiased' in k:
        corr = 1 if k['unbiased'] else 0
    return d, (1 if corr is None else corr), keep


def _h_var(post):
    def h(m, a, k):
        x = m.rd(a[0])
        d, corr, keep = _var_args(a, k)
        return post(_reduce(x, _dims(d, x.ndim), keep, lambda v: _var_of(v, corr)))
    return h


reg('var', _simple(_h_var(lambda x: x)))
reg('std', _simple(_h_var(_vsqrt)))


@handles(aten.var_mean, aten.std_mean)
def _var_mean(mode, func, args, kwargs):
    outs = func(*args, **kwargs)
    x = mode.rd(args[0])
    d, corr, keep = _var_args(args, kwargs)
    v = _reduce(x, _dims(d, x.ndim), keep, lambda e: _var_of(e, corr))
    if packet(func) is aten.std_mean:
        v = _vsqrt(v)
    from fractions import Fraction
    mu = _reduce(x, _dims(d, x.ndim), keep, lambda e: X.mul(X.const(Fraction(1, len(e))), X.addn(e)))
    mode.wr(outs[0], v)
    mode.wr(outs[1], mu)
    return outs


@handles(aten.native_group_norm)
def _native_group_norm(mode, func, args, kwargs):
    x, w, b, N, C, HW, G, eps = args
    outs = func(*args, **kwargs)
    from fractions import Fraction
    xa = mode.rd(x).reshape(N, G, -1)
    mu = _reduce(xa, [2], True, lambda e: X.mul(X.const(Fraction(1, len(e))), X.addn(e)))
    var = _reduce(xa, [2], True, lambda e: _var_of(e, 0))
    rstd = _vdiv(X.ONE, _vsqrt(_vadd(var, X.const(eps))))
    r = _vmul(_vsub(xa, mu), rstd).reshape(tuple(x.shape))
    shp = (1, C) + (1,) * (x.dim() - 2)
    if w is not None:
        r = _vmul(r, mode.rd(w).reshape(shp))
    if b is not None:
        r = _vadd(r, mode.rd(b).reshape(shp))
    mode.wr(outs[0], r)
    mode.wr(outs[1], mu.reshape(tuple(outs[1].shape)))
    mode.wr(outs[2], rstd.reshape(tuple(outs[2].shape)))
    return outs


def _bn_shape(x):
    return (1, x.shape[1]) + (1,) * (x.dim() - 2), [0] + list(range(2, x.dim()))


@handles(aten.native_batch_norm, aten._native_batch_norm_legit, aten._batch_norm_with_update, aten._batch_norm_no_update)
def _batch_norm(mode, func, args, kwargs):
    from fractions import Fraction
    name = func._schema.name.split('::')[1]
    x, w, b = args[:3]
    if name in ('_batch_norm_with_update', '_batch_norm_no_update'):
        rm, rv, (momentum, eps), training = args[3], args[4], args[5:7], name == '_batch_norm_with_update'
    elif func is aten._native_batch_norm_legit.no_stats:
        rm = rv = None
        training, momentum, eps = args[3:6]
    else:
        rm, rv, training, momentum, eps = args[3:8]
    xa = mode.rd(x)
    old = (mode.rd(rm).copy(), mode.rd(rv).copy()) if rm is not None else None
    outs = func(*args, **kwargs)
    shp, dims = _bn_shape(x)
    if training or rm is None:
        mu = _reduce(xa, dims, False, lambda e: X.mul(X.const(Fraction(1, len(e))), X.addn(e)))
        var = _reduce(xa, dims, False, lambda e: _var_of(e, 0))
        if rm is not None:
            n = xa.size // xa.shape[1]
            unb = _reduce(xa, dims, False, lambda e: _var_of(e, 1 if n > 1 else 0))
            for t, o, v in ((rm, old[0], mu), (rv, old[1], unb)):
                mode.wr(t, _vadd(_vmul(X.const(1 - Fraction(momentum)), o), _vmul(X.const(Fraction(momentum)), v)))
    else:
        mu, var = old
    rstd = _vdiv(X.ONE, _vsqrt(_vadd(var, X.const(eps))))
    r = _vmul(_vsub(xa, mu.reshape(shp)), rstd.reshape(shp))
    if w is not None:
        r = _vmul(r, mode.rd(w).reshape(shp))
    if b is not None:
        r = _vadd(r, mode.rd(b).reshape(shp))
    mode.wr(outs[0], r)
    if outs[1].numel():
        mode.wr(outs[1], mu)
        mode.wr(outs[2], rstd)
    return outs


@handles(aten.native_batch_norm_backward, aten.batch_norm_backward)
def _batch_norm_backward(mode, func, args, kwargs):
    from fractions import Fraction
    if func._schema.name.endswith('native_batch_norm_backward'):
        go, x, w, rm, rv, sm, si, train, eps, mask = args[:10]
    else:
        go, x, w, rm, rv, sm, si, train, eps, mask = args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7], args[8], args[9]
    outs = func(*args, **kwargs)
    shp, dims = _bn_shape(x)
    xa, ga = mode.rd(x), mode.rd(go)
    if train:
        mu, rstd = mode.rd(sm), mode.rd(si)
    else:
        mu, rstd = mode.rd(rm), _vdiv(X.ONE, _vsqrt(_vadd(mode.rd(rv), X.const(eps))))
    xh = _vmul(_vsub(xa, mu.reshape(shp)), rstd.reshape(shp))
    tot = lambda v: _reduce(v, dims, False, X.addn)
    scale = rstd if w is None else _vmul(rstd, mode.rd(w))
    if mask[0]:
        if train:
            n = X.const(Fraction(1, xa.size // xa.shape[1]))
            inner = _vsub(_vsub(ga, _vmul(n, tot(ga)).reshape(shp)), _vmul(xh, _vmul(n, tot(_vmul(ga, xh))).reshape(shp)))
        else:
            inner = ga
        mode.wr(outs[0], _vmul(inner, scale.reshape(shp)))
    if mask[1]:
        mode.wr(outs[1], tot(_vmul(ga, xh)))
    if mask[2]:
        mode.wr(outs[2], tot(ga))
    return outs


@handles(aten.linalg_vector_norm, aten.norm)
def _vnorm(mode, func, args, kwargs, symonly=False):
    x = mode.rd(args[0])
    p = args[1] if len(args) > 1 else kwargs.get('ord', kwargs.get('p', 2))
    d = args[2] if len(args) > 2 else kwargs.get('dim')
    keep = args[3] if len(args) > 3 else kwargs.get('keepdim', False)
    p = 2 if p is None else p

    def f(v):
        if p == 2:
            return X.uf('sqrt', X.addn([X.mul(e, e) for e in v]))
        if p == 1:
            return X.addn([X.abs_(e) for e in v])
        if p == float('inf'):
            r = X.abs_(v[0])
            for e in v[1:]:
                r = X.maximum(r, X.abs_(e))
            return r
        raise Unsupported('norm of order {}'.format(p))
    out = func(*args, **kwargs)
    return mode.wr(out, _reduce(x, _dims(d, x.ndim), keep, f))


@handles(aten._linalg_svd, aten.linalg_svdvals)
def _svd(mode, func, args, kwargs):
    x = mode.rd(args[0])
    outs = func(*args, **kwargs)
    S = outs if isinstance(outs, torch.Tensor) else outs[1]
    sv = _obj(tuple(S.shape))
    for idx in np.ndindex(*x.shape[:-2]):
        for k, v in enumerate(X.singular_values(x[idx].tolist())):
            sv[idx + (k,)] = v
    mode.wr(S, sv)
    if not isinstance(outs, torch.Tensor):
        for t in (outs[0], outs[2]):
            # the singular vectors are not modelled: unconstrained
            a = _obj(tuple(t.shape))
            for i in np.ndindex(*a.shape):
                a[i] = X.var('svdvector!{}'.format(mode.e.ctx.fresh_id()))
            mode.wr(t, a)
    return outs


class SymArray(np.lib.mixins.NDArrayOperatorsMixin):
    """what .numpy() of a symbolic tensor gives: shares the tensor's memory, as in torch"""

    def __init__(self, t, mem):
        self._t, self._mem = t, mem

    def __array__(self, dtype=None, copy=None):
        return self._mem.read(self._t)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.pop('out', None)
        r = getattr(ufunc, method)(*[np.asarray(x) if isinstance(x, SymArray) else x for x in inputs], **kwargs)
        if out is not None:
            out[0][...] = r
            return out[0]
        return r

    def __setitem__(self, i, v):
        a = np.asarray(self)
        a[i] = v
        self._mem.write(self._t, np.frompyfunc(X.lift, 1, 1)(a))

    def __array_function__(self, func, types, args, kwargs):
        f = lambda v: np.asarray(v) if isinstance(v, SymArray) else (type(v)(f(u) for u in v) if type(v) in (list, tuple) else v)
        return func(*f(tuple(args)), **{k: f(v) for k, v in kwargs.items()})

    shape = property(lambda s: tuple(s._t.shape))
    ndim = property(lambda s: s._t.ndim)
    size = property(lambda s: s._t.numel())
    dtype = property(lambda s: np.dtype(str(s._t.dtype).split('.')[1]))

    def __len__(self):
        return len(self._t)

    def __getitem__(self, i):
        return np.asarray(self)[i]

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return getattr(np.asarray(self), n)


# ------------------------------------------------------------ patches of Python-level entry points

_CALLING = {}


def modules_calling(builtin):
    """modules of the code under test that convert with this builtin"""
    if builtin in _CALLING:
        return _CALLING[builtin]
    import glob
    import importlib
    import re
    from .ctx import REPO
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, 'neuro_shooting', '*.py'))):
        try:
            src = open(f).read()
        except OSError:
            continue
        if re.search(r'(?<![.\w])%s\(' % builtin, src) and not re.search(r'(dtype|astype)\s*[=(]\s*%s\b' % builtin, src):
            try:
                out.append(importlib.import_module('neuro_shooting.' + os.path.basename(f)[:-3]))
            except Exception:
                pass
    _CALLING[builtin] = out
    return out


class Patches(object):
    """torch functions that read tensor values in C++ before the dispatcher sees them"""

    def __init__(self, engine):
        self.e = engine

    def _has_sym(self, x):
        if isinstance(x, X.Term):
            return x.op not in ('const',) or True
        if isinstance(x, torch.Tensor):
            return self.e.mem.key(x) in self.e.mem.sym and self.e.mem.is_symbolic(x)
        if isinstance(x, (list, tuple)):
            return any(self._has_sym(y) for y in x)
        if isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, SymArray):
            return True
        return False

    def build(self, x, dtype=None):
        """tensor from nested lists that contain symbolic entries"""
        if isinstance(x, torch.Tensor):
            r = x.detach().clone()
            return r.to(dtype) if dtype is not None else r
        if isinstance(x, (np.ndarray, SymArray)):
            return self.build(x.tolist(), dtype)
        if isinstance(x, X.Term):
            dt = dtype or (torch.bool if x.sort == 'B' else torch.get_default_dtype())
            conc = self.e.ctx.concrete_of(x)
            t = self._tensor(bool(conc) if x.sort == 'B' else conc, dtype=dt)
            a = _obj(())
            a[()] = x
            self.e.mem.write(t, a)
            return t
        if isinstance(x, (list, tuple)):
            parts = [self.build(y, dtype) for y in x]
            dt = dtype
            if dt is None:
                for p in parts:
                    if p.dtype.is_floating_point:
                        dt = p.dtype if dt is None else torch.promote_types(dt, p.dtype)
                if dt is not None:
                    parts = [p.to(dt) for p in parts]
            return torch.stack(parts)
        return self._tensor(x, dtype=dtype) if dtype is not None else self._tensor(x)

    def __enter__(self):
        self._tensor = torch.tensor
        self._item = torch.Tensor.item
        self._float = torch.Tensor.__float__
        self._tolist = torch.Tensor.tolist
        self._numpy = torch.Tensor.numpy
        self._repr = torch.Tensor.__repr__
        self._format = torch.Tensor.__format__
        self._arange = torch.arange
        self._Tensor = None
        self._as_tensor = torch.as_tensor
        self._linspace = torch.linspace
        self._full = torch.full
        P = self

        def tensor(data, *a, **k):
            if P._has_sym(data):
                rg = k.pop('requires_grad', False)
                r = P.build(data, k.get('dtype'))
                if rg:
                    r.requires_grad_(True)
                return r
            return P._tensor(data, *a, **k)

        def as_tensor(data, *a, **k):
            if isinstance(data, torch.Tensor):
                return P._as_tensor(data, *a, **k)
            if P._has_sym(data):
                return P.build(data, k.get('dtype'))
            return P._as_tensor(data, *a, **k)

        def item(self):
            if P._has_sym(self):
                v = P.e.mem.read(self).reshape(-1)[0]
                if v.op == 'const':
                    return float(v.args) if self.dtype.is_floating_point else int(v.args)
                if v.sort == 'B':
                    return bool(v)
                return v
            return P._item(self)

        def tolist(self):
            if P._has_sym(self):
                return P.e.mem.read(self).tolist()
            return P._tolist(self)

        def fl(self):
            if P._has_sym(self):
                v = P.e.mem.read(self).reshape(-1)[0]
                return float(v)
            return P._float(self)

        def to_numpy(self, **k):
            if P._has_sym(self):
                if self.requires_grad and not k.get('force'):
                    raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
                return SymArray(self.detach(), P.e.mem)
            return P._numpy(self, **k)

        def term_of(x):
            if isinstance(x, torch.Tensor):
                return P.e.mem.read(x).reshape(-1)[0]
            return X.lift(x)

        def arange(*a, **k):
            named = {n: k[n] for n in ('start', 'end', 'step') if n in k}
            if P._has_sym(list(a)) or P._has_sym(list(named.values())):
                if len(a) == 1 and not named:
                    st, en, sp = X.ZERO, term_of(a[0]), X.ONE
                else:
                    vals = list(a) + [None] * (3 - len(a))
                    st = term_of(named.get('start', vals[0] if vals[0] is not None else 0))
                    en = term_of(named.get('end', vals[1]))
                    sp = term_of(named.get('step', vals[2] if vals[2] is not None else 1))
                n = decide_integer(X.div(X.sub(en, st), sp), True)
                n = int(n.args)
                if n <= 0:
                    return P._tensor([], dtype=k.get('dtype') or torch.get_default_dtype())
                return P.build([X.add(st, X.mul(X.const(i), sp)) for i in range(n)], k.get('dtype'))
            return P._arange(*a, **k)

        def linspace(start=None, end=None, steps=None, **k):
            if P._has_sym([start, end]):
                s, e2 = term_of(start), term_of(end)
                arr = _linspace_arr(_Rd(), (s, e2, int(steps)), {})
                return P.build(arr, k.get('dtype'))
            return P._linspace(start, end, steps, **k)

        def full(size, fill_value, *a, **k):
            if P._has_sym(fill_value):
                v = P.build(fill_value, k.get('dtype'))
                return v.expand(size).clone()
            return P._full(size, fill_value, *a, **k)

        def torch_function(cls, func, types, args=(), kwargs=None):
            # a symbolic number as the argument of a torch function: a zero-dimensional symbolic tensor
            kwargs = kwargs or {}
            nm = getattr(func, '__name__', '')
            lift0 = lambda v: P.build(v) if isinstance(v, X.Term) else (type(v)(lift0(u) for u in v) if isinstance(v, (list, tuple)) else v)
            if nm in ('normal_', 'uniform_', 'normal'):
                base = {'normal_': (0.0, 1.0), 'normal': (0.0, 1.0), 'uniform_': (0.0, 1.0)}[nm]
                keys = ('mean', 'std') if nm != 'uniform_' else ('from', 'to')
                rest = list(args) if nm == 'normal' else list(args[1:])
                lo = rest[0] if rest else kwargs.get(keys[0], base[0])
                hi = rest[1] if len(rest) > 1 else kwargs.get(keys[1], base[1])
                if nm == 'normal':
                    size = rest[2] if len(rest) > 2 else kwargs.get('size')
                    if size is None:
                        size = next(tuple(v.shape) for v in (lo, hi) if isinstance(v, torch.Tensor))
                    return lift0(lo) + lift0(hi) * torch.randn(size)
                t = args[0]
                d = torch.randn(t.shape, dtype=t.dtype) if nm == 'normal_' else torch.rand(t.shape, dtype=t.dtype)
                return t.copy_(lift0(lo) + (lift0(hi) if nm == 'normal_' else lift0(hi) - lift0(lo)) * d)
            if nm in ('fill_', 'full_like', 'new_full'):
                if nm == 'fill_':
                    return args[0].copy_(lift0(args[1] if len(args) > 1 else kwargs['value']).expand(args[0].shape))
                val = args[-1] if len(args) > (1 if nm == 'full_like' else 2) else kwargs.get('fill_value', args[-1])
                shape = args[0].shape if nm == 'full_like' else (args[1] if len(args) > 1 else kwargs['size'])
                return lift0(val).to(kwargs.get('dtype') or args[0].dtype).expand(tuple(shape)).clone()
            return func(*lift0(tuple(args)), **{k: lift0(v) for k, v in kwargs.items()})

        def with_terms(f):
            def g(*a, **k):
                if any(isinstance(v, X.Term) for v in a) or any(isinstance(v, X.Term) for v in k.values()):
                    return torch_function(X.Term, f, (), a, k)
                return f(*a, **k)
            g.__name__ = f.__name__
            return g

        X.Term.__torch_function__ = classmethod(torch_function)
        self._scalar_fns = [(torch.Tensor, n) for n in ('fill_', 'normal_', 'uniform_', 'new_full')] + [(torch, 'full_like'), (torch, 'normal')]
        self._scalar_old = [getattr(o, n) for o, n in self._scalar_fns]
        for (o, n), f in zip(self._scalar_fns, self._scalar_old):
            setattr(o, n, with_terms(f))
        torch.tensor = tensor
        torch.as_tensor = as_tensor
        torch.arange = arange
        torch.linspace = linspace
        torch.full = full
        torch.Tensor.item = item
        torch.Tensor.tolist = tolist
        torch.Tensor.numpy = to_numpy
        # printing a symbolic tensor has no effect the properties talk about
        torch.Tensor.__repr__ = lambda s, **k: 'tensor<symbolic {}>'.format(tuple(s.shape)) if P._has_sym(s) else P._repr(s, **k)
        torch.Tensor.__format__ = lambda s, f: 'tensor<symbolic>' if P._has_sym(s) else P._format(s, f)
        torch.Tensor.__float__ = fl
        self._undo = []
        self.python_level()
        return self

    def patch(self, o, n, f):
        self._undo.append((o, n, o.__dict__.get(n)))
        setattr(o, n, f)

    def python_level(self):
        """entry points that insist on machine numbers: float(), math and numpy conversions"""
        import math
        P = self
        X.SHADOW[0] = lambda t: X.evaluate([t], self.e.ctx.env)[0]
        for n in ('__int__', '__index__'):
            def conv(t, old=getattr(torch.Tensor, n), index=(n == '__index__')):
                if P._has_sym(t) and t.numel() == 1:
                    v = P.e.mem.read(t).reshape(-1)[0]
                    if not (index and t.dtype.is_floating_point):
                        return int(v)
                return old(t)
            self.patch(torch.Tensor, n, conv)

        def sym_args(a):
            return any(isinstance(v, (X.Term, SymArray)) or isinstance(v, torch.Tensor) and P._has_sym(v) for v in a)

        def val(v):
            if isinstance(v, torch.Tensor):
                return v.item()
            if isinstance(v, SymArray):
                return np.asarray(v).reshape(-1)[0]
            return v
        fns = {'log2': lambda x: X.lift(x).log2(), 'log10': lambda x: X.lift(x).log10(), 'sqrt': lambda x: X.lift(x).sqrt(),
               'exp': lambda x: X.lift(x).exp(), 'tanh': lambda x: X.lift(x).tanh(), 'fabs': lambda x: abs(X.lift(x)),
               'log': lambda x, b=None: X.lift(x).log() if b is None else X.div(X.lift(x).log(), X.const(math.log(b))),
               'pow': lambda x, y: X.lift(x) ** y, 'isnan': lambda x: False, 'isinf': lambda x: False, 'isfinite': lambda x: True,
               'fsum': lambda xs: sum(xs), 'prod': None}
        for n, f in fns.items():
            if f is None:
                continue
            def g(*a, f=f, old=getattr(math, n)):
                if sym_args(a) or a and isinstance(a[0], (list, tuple)) and sym_args(a[0]):
                    return f(*[val(v) for v in a])
                return old(*a)
            self.patch(math, n, g)

        def holds_terms(x):
            if isinstance(x, (X.Term, SymArray)):
                return True
            if isinstance(x, (list, tuple)):
                return any(holds_terms(y) for y in x)
            if isinstance(x, np.ndarray):
                return x.dtype == object and any(isinstance(y, X.Term) for y in x.flat)
            return isinstance(x, torch.Tensor) and P._has_sym(x)

        def plain(x):
            if isinstance(x, torch.Tensor):
                return np.asarray(x.detach().numpy()) if P._has_sym(x) else x.detach().numpy()
            if isinstance(x, (list, tuple)):
                return type(x)(plain(y) for y in x) if type(x) in (list, tuple) else x
            return x
        for n in ('array', 'asarray', 'asanyarray'):
            def arr(x, *a, old=getattr(np, n), **k):
                if holds_terms(x):
                    if a:
                        a = (object,) + tuple(a[1:])
                    elif 'dtype' in k:
                        k['dtype'] = object
                    x = plain(x)
                return old(x, *a, **k)
            self.patch(np, n, arr)
        from .ctx import SymFloat
        for m in modules_calling('float'):
            if 'float' not in m.__dict__:
                self.patch(m, 'float', SymFloat)

    def __exit__(self, *a):
        for o, n, f in reversed(self._undo):
            setattr(o, n, f) if f is not None else delattr(o, n)
        X.SHADOW[0] = None
        del X.Term.__torch_function__
        for (o, n), f in zip(self._scalar_fns, self._scalar_old):
            setattr(o, n, f)
        torch.tensor = self._tensor
        torch.as_tensor = self._as_tensor
        torch.arange = self._arange
        torch.linspace = self._linspace
        torch.full = self._full
        torch.Tensor.item = self._item
        torch.Tensor.tolist = self._tolist
        torch.Tensor.numpy = self._numpy
        torch.Tensor.__repr__ = self._repr
        torch.Tensor.__format__ = self._format
        torch.Tensor.__float__ = self._float


class _Rd(object):
    def rd(self, x):
        a = _obj(())
        a[()] = x
        return a
