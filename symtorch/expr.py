"""Hash-consed symbolic terms.

Every element of every float tensor the code under test touches is shadowed by
one of these terms.  They denote real numbers ('R') or Booleans ('B'); the
float arithmetic of torch is read as real arithmetic (stated in DESIGN.md).
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNT = [0]

# callback used when Python asks for the truth value of a symbolic Boolean;
# installed by the path explorer
DECIDE = [None]


class SymbolicError(Exception):
    """Something the engine cannot model (never a property violation)."""


class Term(object):
    __slots__ = ('op', 'args', 'sort', 'uid', '__weakref__')
    # make numpy treat us as an opaque scalar
    __array_priority__ = 1000

    def __hash__(self):
        return self.uid

    def __repr__(self):
        return to_str(self)

    def __format__(self, spec):
        return to_str(self, 2)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise SymbolicError('symbolic terms cannot be pickled')

    # ---- arithmetic (infinite Python floats stay what they are: every term is finite)
    def __add__(self, o):
        if infinite(o):
            return o
        o = lift(o)
        return NotImplemented if o is None else add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        if infinite(o):
            return -o
        o = lift(o)
        return NotImplemented if o is None else sub(self, o)

    def __rsub__(self, o):
        if infinite(o):
            return o
        o = lift(o)
        return NotImplemented if o is None else sub(o, self)

    def __mul__(self, o):
        if infinite(o):
            return o if self > 0 else (-o if self < 0 else math.nan)
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else floor_(div(self, o))

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, n):
        return power(self, lift(n))

    def __rpow__(self, n):
        return power(lift(n), self)

    def __abs__(self):
        return abs_(self)

    # ---- comparisons
    def __lt__(self, o):
        if infinite(o):
            return o > 0
        o = lift(o)
        return NotImplemented if o is None else lt(self, o)

    def __le__(self, o):
        if infinite(o):
            return o > 0
        o = lift(o)
        return NotImplemented if o is None else le(self, o)

    def __gt__(self, o):
        if infinite(o):
            return o < 0
        o = lift(o)
        return NotImplemented if o is None else lt(o, self)

    def __ge__(self, o):
        if infinite(o):
            return o < 0
        o = lift(o)
        return NotImplemented if o is None else le(o, self)

    def __eq__(self, o):
        if infinite(o):
            return False
        o = lift(o)
        return False if o is None else eq(self, o)

    def __ne__(self, o):
        if infinite(o):
            return True
        o = lift(o)
        return True if o is None else not_(eq(self, o))

    def __invert__(self):
        return not_(self)

    def __and__(self, o):
        return and_(self, lift(o))
    __rand__ = __and__

    def __or__(self, o):
        return or_(self, lift(o))
    __ror__ = __or__

    def __bool__(self):
        if self.sort == 'B':
            if self.op == 'true':
                return True
            if self.op == 'false':
                return False
            if DECIDE[0] is None:
                raise SymbolicError('truth value of a symbolic Boolean outside the explorer')
            return DECIDE[0](self)
        return bool(not_(eq(self, ZERO)))

    def __float__(self):
        if self.op == 'const':
            return float(self.args)
        raise SymbolicError('float() of symbolic value {}'.format(self))

    def __int__(self):
        if self.sort == 'B':
            return 1 if bool(self) else 0
        return truncated(self)

    __trunc__ = __int__

    def __floor__(self):
        return floored(self)

    def __ceil__(self):
        return -floored(neg(self))

    def __round__(self, n=None):
        if n:
            return rounded_to(self, n)
        return rounded(self)

    def rint(self):
        return const(rounded(self))

    def __mod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else sub(self, mul(floor_(div(self, o)), o))

    def __rmod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o % self

    def __rfloordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else floor_(div(o, self))

    # numpy object-array ufunc hooks
    def sqrt(self):
        return uf('sqrt', self)

    def exp(self):
        return uf('exp', self)

    def log(self):
        return uf('log', self)

    def log2(self):
        # the base enters as the same constant a float computation of log(2) gives
        return div(uf('log', self), const(math.log(2)))

    def log10(self):
        return div(uf('log', self), const(math.log(10)))

    def tanh(self):
        return uf('tanh', self)

    def item(self):
        return self


def infinite(x):
    return isinstance(x, float) and not math.isfinite(x)


def _mk(op, args, sort):
    key = (op, args, sort) if op in ('const', 'var', 'true', 'false') else (op, tuple(a.uid for a in args) if isinstance(args, tuple) and args and isinstance(args[0], Term) else args, sort)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        _COUNT[0] += 1
        t.uid = _COUNT[0]
        _TABLE[key] = t
    return t


def reset():
    _TABLE.clear()
    _CONSTF.clear()
    global ZERO, ONE, TRUE, FALSE
    # keep the singletons alive
    for c in (ZERO, ONE, MINUS1):
        _TABLE[('const', c.args, 'R')] = c
    _TABLE[('true', None, 'B')] = TRUE
    _TABLE[('false', None, 'B')] = FALSE


_CONSTF = {}


def simplest_between(lo, hi):
    """simplest rational in the closed interval [lo,hi] (Stern-Brocot)"""
    if lo > hi:
        lo, hi = hi, lo
    if lo <= 0 <= hi:
        return Fraction(0)
    if hi < 0:
        return -simplest_between(-hi, -lo)
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def rational_of_float(x, single=False):
    """The simplest rational that rounds to the float x (so 0.1 -> 1/10)."""
    key = (x, single)
    r = _CONSTF.get(key)
    if r is not None:
        return r
    if math.isnan(x) or math.isinf(x):
        raise SymbolicError('non-finite constant {}'.format(x))
    f = Fraction(x)
    if f.denominator <= 1024:
        r = f
    else:
        if single:
            import numpy as np
            s = np.float32(x)
            up = Fraction(float(np.nextafter(s, np.float32(np.inf))))
            dn = Fraction(float(np.nextafter(s, np.float32(-np.inf))))
        else:
            up = Fraction(math.nextafter(x, math.inf))
            dn = Fraction(math.nextafter(x, -math.inf))
        # stay well inside the rounding interval
        r = simplest_between(f + (dn - f) * Fraction(49, 100), f + (up - f) * Fraction(49, 100))
    _CONSTF[key] = r
    return r


def const(x, single=False):
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, bool):
        return TRUE if x else FALSE
    elif isinstance(x, int):
        f = Fraction(x)
    else:
        f = rational_of_float(float(x), single)
    return _mk('const', f, 'R')


def var(name):
    return _mk('var', name, 'R')


def bvar(name):
    return _mk('var', name, 'B')


ZERO = _mk('const', Fraction(0), 'R')
ONE = _mk('const', Fraction(1), 'R')
TRUE = _mk('true', None, 'B')
FALSE = _mk('false', None, 'B')


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return TRUE if x else FALSE
        if isinstance(x, np.float32):
            return const(float(x), True)
        if isinstance(x, np.generic):
            return const(x.item())
    except Exception:
        pass
    return None


def real(a):
    """coerce Boolean term to 0/1 real"""
    if isinstance(a, float):
        raise SymbolicError('non-finite constant {}'.format(a))
    if a.sort == 'B':
        return ite(a, ONE, ZERO)
    return a


def boolean(a):
    if a.sort == 'R':
        return not_(eq(a, ZERO))
    return a


def add(a, b):
    a = real(a)
    b = real(b)
    if a.op == 'const':
        if b.op == 'const':
            return _mk('const', a.args + b.args, 'R')
        if a.args == 0:
            return b
        a, b = b, a
    elif b.op == 'const' and b.args == 0:
        return a
    if a.uid > b.uid and b.op != 'const':
        a, b = b, a
    return _mk('add', (a, b), 'R')


def addn(xs):
    xs = [real(x) for x in xs]
    c = Fraction(0)
    r = []
    for x in xs:
        if x.op == 'const':
            c += x.args
        else:
            r.append(x)
    if not r:
        return _mk('const', c, 'R')
    if c != 0:
        r.append(_mk('const', c, 'R'))
    if len(r) == 1:
        return r[0]
    if len(r) == 2:
        return add(r[0], r[1])
    return _mk('add', tuple(r), 'R')


def mul(a, b):
    a = real(a)
    b = real(b)
    if a.op == 'const':
        if b.op == 'const':
            return _mk('const', a.args * b.args, 'R')
        if a.args == 0:
            return ZERO
        if a.args == 1:
            return b
        if b.op == 'mul' and b.args[0].op == 'const':
            return mul(_mk('const', a.args * b.args[0].args, 'R'), b.args[1])
    elif b.op == 'const':
        return mul(b, a)
    if a.op != 'const' and a.uid > b.uid:
        a, b = b, a
    return _mk('mul', (a, b), 'R')


MINUS1 = _mk('const', Fraction(-1), 'R')


def neg(a):
    return mul(MINUS1, real(a))


def sub(a, b):
    a = real(a)
    b = real(b)
    if a is b:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    a = real(a)
    b = real(b)
    if b.op == 'const':
        if b.args == 0:
            raise SymbolicError('division by constant zero')
        return mul(_mk('const', 1 / b.args, 'R'), a)
    if a.op == 'const' and a.args == 0:
        return ZERO
    if a is b:
        return ONE
    return _mk('div', (a, b), 'R')


def power(a, n):
    a = real(a)
    if n.op != 'const':
        raise SymbolicError('symbolic exponent')
    e = n.args
    if a.op == 'const' and e.denominator == 1:
        return _mk('const', a.args ** int(e), 'R')
    if e == 0:
        return ONE
    if e == 1:
        return a
    if e == Fraction(1, 2):
        return uf('sqrt', a)
    if e == Fraction(-1, 2):
        return div(ONE, uf('sqrt', a))
    if e.denominator & (e.denominator - 1) == 0 and 1 < e.denominator <= 8:
        # repeated square roots
        return power(uf('sqrt', a), const(2 * e))
    if e.denominator != 1:
        raise SymbolicError('non-integer exponent {}'.format(e))
    e = int(e)
    if e < 0:
        return div(ONE, power(a, const(-e)))
    r = a
    for _ in range(e - 1):
        r = mul(r, a)
    return r


def uf(name, a):
    a = real(a)
    if a.op == 'const':
        v = a.args
        if name == 'sqrt':
            if v < 0:
                raise SymbolicError('sqrt of a negative constant')
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return _mk('const', Fraction(n, d), 'R')
        if v == 0 and name in ('tanh', 'sin'):
            return ZERO
        if v == 0 and name in ('exp', 'cos'):
            return ONE
        if v == 1 and name == 'log':
            return ZERO
        if v == 0 and name == 'sigmoid':
            return _mk('const', Fraction(1, 2), 'R')
    return _mk(name, (a,), 'R')


UFS = ('tanh', 'sigmoid', 'exp', 'log', 'sqrt', 'sin', 'cos')


def singular_values(rows):
    """singular values of a matrix of terms, largest first: functions of the entries, the same for the transpose"""
    m, n = len(rows), len(rows[0])
    if m > n:
        rows = [[rows[i][j] for i in range(m)] for j in range(n)]
        m, n = n, m
    flat = tuple(real(e) for r in rows for e in r)
    if m == 1:
        return [uf('sqrt', addn([mul(e, e) for e in flat]))]
    if m == 2 and all(e.op == 'const' and e.args == 0 for e in flat):
        return [ZERO] * m
    return [_mk('sv{}.{}.{}'.format(m, n, k), flat, 'R') for k in range(m)]


def is_singular_value(op):
    return op.startswith('sv')


def floor_(a):
    return const(floored(a))


SHADOW = [None]     # value of a term on the concrete shadow run: where the search for an integer part starts


def floored(t, bound=64):
    """integer part (towards minus infinity) of a term: every value it can take is explored"""
    t = real(t)
    if t.op == 'const':
        return math.floor(t.args)
    n0 = 0
    if SHADOW[0] is not None:
        try:
            n0 = math.floor(SHADOW[0](t))
        except Exception:
            n0 = 0
    for i in range(bound + 1):
        for n in ((n0 + i, n0 - i) if i else (n0,)):
            if bool(and_(le(const(n), t), lt(t, const(n + 1)))):
                return n
    raise SymbolicError('integer part not within {} of {}'.format(bound, n0))


def truncated(t):
    t = real(t)
    if t.op == 'const':
        return int(t.args)
    if bool(lt(t, ZERO)):
        return -floored(neg(t))
    return floored(t)


def rounded_to(t, n):
    """rounded to decimals: decided around the shadow's value only, without a verdict elsewhere"""
    t = real(t)
    if t.op == 'const':
        return const(round(t.args, n))
    if SHADOW[0] is None:
        raise SymbolicError('rounding to decimals')
    scale = 10 ** n
    k = math.floor(SHADOW[0](t) * scale + 0.5)
    u = mul(t, const(scale))
    if bool(and_(lt(const(k - 0.5), u), lt(u, const(k + 0.5)))):
        return div(const(k), const(scale))
    raise SymbolicError('rounding to decimals')


def rounded(t):
    """nearest integer, halves to the even one"""
    t = real(t)
    if t.op == 'const':
        return round(t.args)
    n = floored(add(t, const(0.5)))
    if n % 2 and bool(eq(t, const(n - 0.5))):
        return n - 1
    return n


# ---------------------------------------------------------------- booleans

GENERIC = [False]   # generic position: x>=c and x>c are identified (relu kink excluded)


def lt(a, b):
    if infinite(a) or infinite(b):
        return TRUE if (b == math.inf if infinite(b) else a == -math.inf) and not (infinite(a) and infinite(b) and a == b) else FALSE
    a = real(a)
    b = real(b)
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args < b.args else FALSE
    if is_singular_value(a.op):
        if b.op == 'const' and b.args <= 0:
            return FALSE
        if is_singular_value(b.op) and a.args == b.args:
            # of the same matrix: in decreasing order
            i, j = int(a.op.split('.')[2]), int(b.op.split('.')[2])
            if i < j:
                return FALSE
            if GENERIC[0]:
                return TRUE
    return _mk('lt', (a, b), 'B')


def le(a, b):
    if infinite(a) or infinite(b):
        return TRUE if (infinite(b) and b > 0) or (infinite(a) and a < 0) else FALSE
    a = real(a)
    b = real(b)
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args <= b.args else FALSE
    return _mk('le', (a, b), 'B')


def le_tensor(a, b):
    """<= as computed by the code under test on tensors (generic position applies)"""
    if infinite(a) or infinite(b):
        return le(a, b)
    return lt(a, b) if GENERIC[0] and not (a.op == 'const' and b.op == 'const') else le(a, b)


def eq(a, b):
    if a.sort == 'B' or b.sort == 'B':
        a = boolean(a)
        b = boolean(b)
        if a is b:
            return TRUE
        if a.op == 'true':
            return b
        if b.op == 'true':
            return a
        if a.op == 'false':
            return not_(b)
        if b.op == 'false':
            return not_(a)
        return _mk('iff', (a, b), 'B')
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args == b.args else FALSE
    if a.uid > b.uid:
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def not_(a):
    a = boolean(a)
    if a.op == 'true':
        return FALSE
    if a.op == 'false':
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 'B')


def and_(a, b):
    a = boolean(a)
    b = boolean(b)
    if a.op == 'false' or b.op == 'false':
        return FALSE
    if a.op == 'true':
        return b
    if b.op == 'true':
        return a
    if a is b:
        return a
    return _mk('and', (a, b), 'B')


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def ite(c, a, b):
    c = boolean(c)
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    a = real(a)
    b = real(b)
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return _mk('ite', (c, a, b), 'R')


def abs_(a):
    a = real(a)
    if a.op == 'const':
        return _mk('const', abs(a.args), 'R')
    return ite(lt(a, ZERO), neg(a), a)


def maximum(a, b):
    return ite(lt(a, b), b, a)


def minimum(a, b):
    return ite(lt(b, a), b, a)


def sign(a):
    return ite(lt(a, ZERO), MINUS1, ite(lt(ZERO, a), ONE, ZERO))


def children(t):
    if t.op in ('const', 'var', 'true', 'false'):
        return ()
    return t.args


def topo(roots):
    """all sub-terms, children first (iterative)"""
    out = []
    seen = set()
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.uid in seen:
            continue
        seen.add(t.uid)
        stack.append((t, True))
        for c in children(t):
            if c.uid not in seen:
                stack.append((c, False))
    return out


def variables(roots):
    return [t for t in topo(roots) if t.op == 'var']


def to_str(t, depth=4):
    if t.op == 'const':
        return str(t.args)
    if t.op == 'var':
        return t.args
    if t.op in ('true', 'false'):
        return t.op
    if depth == 0:
        return '...'
    return '({} {})'.format(t.op, ' '.join(to_str(c, depth - 1) for c in t.args))


def evaluate(roots, env):
    """numeric (float) evaluation of terms at an assignment of the variables"""
    val = {}
    for t in topo(roots):
        op = t.op
        if op == 'const':
            v = float(t.args)
        elif op == 'var':
            v = env[t.args]
        elif op == 'true':
            v = True
        elif op == 'false':
            v = False
        else:
            a = [val[c.uid] for c in t.args]
            if op == 'add':
                v = math.fsum(a)
            elif op == 'mul':
                v = a[0] * a[1]
            elif op == 'div':
                v = a[0] / a[1] if a[1] != 0 else float('nan')
            elif op == 'lt':
                v = a[0] < a[1]
            elif op == 'le':
                v = a[0] <= a[1]
            elif op == 'eq':
                v = a[0] == a[1]
            elif op == 'iff':
                v = bool(a[0]) == bool(a[1])
            elif op == 'not':
                v = not a[0]
            elif op == 'and':
                v = a[0] and a[1]
            elif op == 'ite':
                v = a[1] if a[0] else a[2]
            elif op == 'tanh':
                v = math.tanh(a[0])
            elif op == 'sigmoid':
                v = 1.0 / (1.0 + math.exp(-a[0])) if a[0] > -700 else 0.0
            elif op == 'exp':
                v = math.exp(a[0]) if a[0] < 700 else float('inf')
            elif op == 'log':
                v = math.log(a[0]) if a[0] > 0 else float('nan')
            elif op == 'sqrt':
                v = math.sqrt(a[0]) if a[0] >= 0 else float('nan')
            elif op == 'sin':
                v = math.sin(a[0])
            elif op == 'cos':
                v = math.cos(a[0])
            elif is_singular_value(op):
                import numpy as np
                m, n, k = map(int, op[2:].split('.'))
                v = float(np.linalg.svd(np.array(a, dtype=float).reshape(m, n), compute_uv=False)[k])
            else:
                raise SymbolicError('evaluate: ' + op)
        val[t.uid] = v
    return [val[r.uid] for r in roots]
