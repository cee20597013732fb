"""Contexts in which a property harness runs.

SymCtx     inputs are symbolic; checks become solver obligations
ConCtx     inputs are numbers; checks are evaluated (replay of a counterexample
           against the real, unpatched code)

A harness is an ordinary Python function  fn(ctx, **params)  that drives the
real code through its public entry points.
"""
import contextlib
import io
import math
import random
import re
import sys
import traceback
import zlib
import numpy as np
import torch
from . import expr as X
from .expr import SymbolicError

REPO = '/repo'


class Inconclusive(Exception):
    pass


class PathAbandoned(Exception):
    """the path turned out to be infeasible / assumption violated"""


class Violation(Exception):
    def __init__(self, label, env):
        self.label = label
        self.env = env


def sample_value(name, seed, pos=False):
    h = zlib.crc32(('%s|%d' % (name, seed)).encode())
    u = (h % 100003) / 100003.0
    v = 0.35 + 1.3 * u if pos else -1.4 + 2.8 * u
    if not pos and abs(v) < 0.05:
        v += 0.2
    # short dyadic values, so the rational and the float agree exactly
    return round(v * 64) / 64.0


def flatten(x, prefix=''):
    """(path, leaf) pairs of nested containers"""
    if isinstance(x, dict) or hasattr(x, 'items'):
        for k in x:
            for r in flatten(x[k], '{}/{}'.format(prefix, k)):
                yield r
    elif isinstance(x, (list, tuple)) and not isinstance(x, torch.Size):
        for i, v in enumerate(x):
            for r in flatten(v, '{}/{}'.format(prefix, i)):
                yield r
    else:
        yield prefix, x


class BaseCtx(object):
    symbolic = False

    def check_struct(self, label, a, b):
        """same keys and shapes (concrete facts)"""
        fa = list(flatten(a))
        fb = list(flatten(b))
        ok = [p for p, _ in fa] == [p for p, _ in fb]
        self.check(label + ':keys', ok)
        if ok:
            for (p, u), (_, v) in zip(fa, fb):
                if isinstance(u, torch.Tensor) and isinstance(v, torch.Tensor):
                    self.check('{}{}:shape'.format(label, p), tuple(u.shape) == tuple(v.shape))
        return ok

    def check_same(self, label, a, b):
        """nested containers equal in structure, shape and every value"""
        if self.check_struct(label, a, b):
            for (p, u), (_, v) in zip(flatten(a), flatten(b)):
                if u is None and v is None:
                    continue
                if isinstance(u, torch.Tensor) or isinstance(v, torch.Tensor) or isinstance(u, (X.Term, float, int, np.ndarray)) or hasattr(u, '__array_ufunc__'):
                    self.check_eq('{}{}'.format(label, p), u, v)
                else:
                    self.check('{}{}'.format(label, p), u == v)

    def raises(self, label, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except (SymbolicError, PathAbandoned, Violation, Inconclusive):
            raise
        except excs:
            self.check(label, True)
            return
        self.check(label, False)

    def symbolic_float(self, mod):
        """let float(.) in that module hand a symbolic number through"""

    def quiet(self):
        return contextlib.redirect_stdout(io.StringIO())


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, X.Term))

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FloatMeta):
    """stands in for the builtin float in a module under test"""

    def __new__(cls, x=0.0):
        if isinstance(x, X.Term):
            return x
        if isinstance(x, torch.Tensor):
            return x.item() if x.dtype.is_floating_point else float(x)
        return float(x)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, prefix=(), seed=1, limits=None):
        from . import engine, solver
        self.engine_mod = engine
        self.solver = solver
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []       # alternative prefixes discovered on this path
        self.pc = []            # path condition (decisions and assumptions)
        self.seed = seed
        self.names = []         # input variables, replayed
        self.env = {}           # sample values (concrete shadow)
        self.nrnd = 0
        self.rndtag = ''
        self.natural = True     # does the concrete shadow follow the same path?
        self.obligations = 0
        self.elements = 0
        self.validated = 0
        self.limits = limits or {}
        self.timeout = self.limits.get('timeout', 4000)
        self.skip_validate = False
        self.patched = []
        self.engine = engine.Engine(self)

    # ---------------------------------------------------------------- running
    def run(self, fn, params):
        from .engine import SymMode, Patches
        X.DECIDE[0] = self.decide
        X.GENERIC[0] = bool(self.limits.get('generic'))
        try:
            with self.quiet(), Patches(self.engine), SymMode(self.engine):
                fn(self, **params)
        finally:
            X.DECIDE[0] = None
            for m in self.patched:
                m.__dict__.pop('float', None)

    def symbolic_float(self, mod):
        if 'float' not in mod.__dict__:
            mod.float = SymFloat
            self.patched.append(mod)

    def decide(self, cond):
        cond = X.boolean(cond)
        i = len(self.decisions)
        if i < len(self.prefix):
            choice = self.prefix[i]
        else:
            if self.limits.get('assume_true_fork') and False:
                pass
            t = self.solver.feasible(self.pc + [cond])
            if t == 'unsat':
                choice = False
            else:
                f = self.solver.feasible(self.pc + [X.not_(cond)])
                if f == 'unsat':
                    choice = True
                else:
                    choice = True
                    self.pending.append(self.decisions + [False])
        self.decisions.append(choice)
        if len(self.decisions) > self.limits.get('max_decisions', 4000):
            raise Inconclusive('too many decisions on one path')
        self.pc.append(cond if choice else X.not_(cond))
        if self.natural:
            try:
                v = X.evaluate([cond], self.env)[0]
                if bool(v) != choice:
                    self.natural = False
            except Exception:
                self.natural = False
        return choice

    # ---------------------------------------------------------------- inputs
    def _var(self, name, pos=False, sample=None):
        v = X.var(name)
        if name not in self.env:
            self.names.append(name)
            self.env[name] = sample_value(name, self.seed, pos) if sample is None else float(sample)
            if pos:
                self.pc.append(X.lt(X.ZERO, v))
        return v

    def new_random(self, kind, value):
        name = 'rnd!%s%s%d' % (self.rndtag, kind[0], self.nrnd)
        self.nrnd += 1
        self.env[name] = value
        return X.var(name)

    def fresh_id(self):
        self.nfresh = getattr(self, 'nfresh', 0) + 1
        return self.nfresh

    def seed_random(self, s):
        """restart the source of random numbers: the same draws, in the same order, follow every time"""
        torch.manual_seed(s)
        self.rndtag, self.nrnd = '%d!' % s, 0

    def draws_in(self, term):
        return [v.args for v in X.variables([X.lift(term)]) if v.args.startswith('rnd!')]

    def bound_draws(self, t):
        """uniform draws lie between 0 and 1"""
        for v in X.variables([X.lift(e) for e in self.terms(t).reshape(-1)]):
            if v.args.startswith('rnd!') and v.args.split('!')[-1][0] == 'u':
                self.assume((v >= 0) & (v < 1))

    def check_standard_noise(self, label, t, seed):
        """every entry is a standard normal draw of its own"""
        seen = set()
        ok = True
        for v in self.terms(t).reshape(-1):
            ok = ok and v.op == 'var' and v.args.startswith('rnd!') and v.args.split('!')[-1][0] == 'n' and v not in seen
            seen.add(v)
        self.check(label, ok)

    def check_own_draws(self, label, ts):
        """no two entries share a random draw, and every entry has one"""
        seen, ok = set(), True
        for t in ts:
            for v in self.terms(t).reshape(-1):
                d = set(self.draws_in(v))
                ok = ok and bool(d) and not (d & seen)
                seen |= d
        self.check(label, ok)

    def scalar(self, name, pos=False, sample=None):
        return self._var(name, pos, sample)

    def boolean(self, name):
        """an arbitrary truth value: both are explored"""
        return bool(X.lt(X.ZERO, self._var(name, sample=1.0)))

    def tensor(self, name, shape, pos=False, requires_grad=False, dtype=None, sample=None):
        shape = tuple(shape)
        dtype = dtype or torch.get_default_dtype()
        arr = np.empty(shape, dtype=object)
        vals = []
        fs = None if sample is None else np.asarray(sample, dtype=float).reshape(-1)
        for n, idx in enumerate(np.ndindex(*shape)):
            nm = '{}[{}]'.format(name, ','.join(map(str, idx))) if shape else name
            arr[idx] = self._var(nm, pos, None if fs is None else fs[n])
            vals.append(self.env[nm])
        from torch.utils._python_dispatch import _disable_current_modes
        with _disable_current_modes():
            t = torch.tensor(vals, dtype=dtype).reshape(shape)
        self.engine.mem.write(t, arr)
        if requires_grad:
            t.requires_grad_(True)
        return t

    def set_values(self, t, name, pos=False):
        """make an existing (leaf) tensor symbolic in place, e.g. a parameter the code created"""
        from torch.utils._python_dispatch import _disable_current_modes
        src = self.tensor(name, tuple(t.shape), pos=pos, dtype=t.dtype)
        with torch.no_grad():
            with _disable_current_modes():
                t.data.copy_(src)
            self.engine.mem.write(t.data, self.engine.mem.read(src))
        return t

    def concrete_of(self, term):
        try:
            v = X.evaluate([term], self.env)[0]
            if v != v:
                return 0.0
            return v
        except Exception:
            return 0.0

    def assume(self, cond):
        for c in self._conds(cond):
            if c.op == 'true':
                continue
            if c.op == 'false':
                raise PathAbandoned()
            self.pc.append(c)
            if self.natural:
                try:
                    if not X.evaluate([c], self.env)[0]:
                        self.natural = False
                except Exception:
                    self.natural = False

    def _conds(self, cond):
        if isinstance(cond, torch.Tensor):
            return [X.boolean(c) for c in self.engine.mem.read(cond).reshape(-1)]
        if isinstance(cond, X.Term):
            return [X.boolean(cond)]
        return [X.TRUE if cond else X.FALSE]

    # ---------------------------------------------------------------- checks
    def terms(self, x):
        if isinstance(x, torch.Tensor):
            return self.engine.mem.read(x)
        if isinstance(x, self.engine_mod.SymArray):
            return np.asarray(x)
        if isinstance(x, np.ndarray):
            a = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                a[i] = X.lift(x[i])
            return a
        a = np.empty((), dtype=object)
        v = X.lift(x)
        if v is None:
            raise Inconclusive('cannot interpret {} as a value'.format(type(x)))
        a[()] = v
        return a

    def term(self, x):
        return self.terms(x).reshape(-1)[0]

    def check_eq(self, label, a, b):
        if a is None or b is None:
            self.check(label + ':defined', a is None and b is None)
            return
        ta, tb = self.terms(a), self.terms(b)
        self.check(label + ':shape', ta.shape == tb.shape)
        if ta.shape != tb.shape:
            return
        if isinstance(a, torch.Tensor):
            self.validate(label, a)
        if isinstance(b, torch.Tensor):
            self.validate(label, b)
        pairs = list(zip(ta.reshape(-1), tb.reshape(-1)))
        self.obligations += 1
        self.elements += len(pairs)
        if not pairs:
            return
        v, env, idx = self.solver.decide_equal(self.pc, pairs, self.names, timeout=self.timeout)
        if v == 'unsat':
            return
        if v == 'sat':
            raise Violation('{}#{}'.format(label, idx), env)
        raise Violation('{}#{} (undecided)'.format(label, idx), None)

    def proves_eq(self, a, b):
        """does the equality hold for all values on this path? (a lemma: harnesses fall back to the property itself if not)"""
        ta, tb = self.terms(a), self.terms(b)
        if ta.shape != tb.shape:
            return False
        v, env, idx = self.solver.decide_equal(self.pc, list(zip(ta.reshape(-1), tb.reshape(-1))), self.names, timeout=self.timeout)
        return v == 'unsat'

    def check(self, label, cond):
        for c in self._conds(cond):
            self.obligations += 1
            self.elements += 1
            if c.op == 'true':
                continue
            if c.op == 'false':
                env = self.solver.model_of(self.pc, self.names)
                raise Violation(label, env)
            v, env = self.solver.decide_true(self.pc, c, self.names, timeout=self.timeout)
            if v == 'unsat':
                continue
            raise Violation(label if v == 'sat' else label + ' (undecided)', env)

    def validate(self, label, t):
        """the terms, evaluated at the concrete shadow's inputs, must give the concrete tensor"""
        if not self.natural or self.skip_validate:
            return
        k = self.engine.mem.key(t)
        if k not in self.engine.mem.sym:
            return
        arr = self.engine.mem.read(t).reshape(-1)
        conc = self.engine_mod.raw_values(t)
        try:
            vals = X.evaluate(list(arr), self.env)
        except (KeyError, OverflowError):
            return
        tol = 2e-3 if t.dtype == torch.float32 else 1e-5
        for v, c in zip(vals, conc):
            v = float(v)
            c = float(c)
            if v != v or c != c or math.isinf(c):
                continue
            if abs(v - c) > tol * (1 + abs(c)):
                raise Inconclusive('translation mismatch at {}: term {} concrete {}'.format(label, v, c))
        self.validated += len(conc)


class ConCtx(BaseCtx):
    """concrete replay"""

    def __init__(self, env, seed=1):
        self.given = dict(env)
        self.seed = seed
        self.failed = []
        self.checked = 0
        self.assumption_failed = False

    def run(self, fn, params):
        with self.quiet():
            fn(self, **params)

    def _val(self, name, pos, sample):
        if name in self.given:
            return float(self.given[name])
        return sample_value(name, self.seed, pos) if sample is None else float(sample)

    def scalar(self, name, pos=False, sample=None):
        v = self._val(name, pos, sample)
        if pos and v <= 0:
            raise PathAbandoned()
        return v

    def boolean(self, name):
        return self._val(name, False, 1.0) > 0

    def tensor(self, name, shape, pos=False, requires_grad=False, dtype=None, sample=None):
        shape = tuple(shape)
        dtype = dtype or torch.get_default_dtype()
        fs = None if sample is None else np.asarray(sample, dtype=float).reshape(-1)
        vals = []
        for n, idx in enumerate(np.ndindex(*shape)):
            nm = '{}[{}]'.format(name, ','.join(map(str, idx))) if shape else name
            vals.append(self._val(nm, pos, None if fs is None else fs[n]))
        if pos and any(v <= 0 for v in vals):
            raise PathAbandoned()
        t = torch.tensor(vals, dtype=dtype).reshape(shape)
        if requires_grad:
            t.requires_grad_(True)
        return t

    def set_values(self, t, name, pos=False):
        src = self.tensor(name, tuple(t.shape), pos=pos, dtype=t.dtype)
        with torch.no_grad():
            t.data.copy_(src)
        return t

    def seed_random(self, s):
        torch.manual_seed(s)

    def bound_draws(self, t):
        pass

    def check_standard_noise(self, label, t, seed):
        torch.manual_seed(seed)
        self.check_eq(label, t, torch.randn(tuple(t.shape)))

    def check_own_draws(self, label, ts):
        v = torch.cat([t.detach().reshape(-1) for t in ts])
        self.check(label, len(set(v.tolist())) == v.numel())

    def assume(self, cond):
        if isinstance(cond, torch.Tensor):
            ok = bool(cond.all())
        else:
            ok = bool(cond)
        if not ok:
            raise PathAbandoned()

    def terms(self, x):
        if isinstance(x, torch.Tensor):
            return x.detach().cpu().numpy()
        return np.asarray(x)

    def term(self, x):
        if isinstance(x, torch.Tensor):
            return x.detach().reshape(-1)[0].item()
        return x

    def _arr(self, x):
        if isinstance(x, torch.Tensor):
            return x.detach().to(torch.float64).cpu().numpy()
        return np.asarray(x, dtype=float)

    def check_eq(self, label, a, b):
        self.checked += 1
        if a is None or b is None:
            self.check(label + ':defined', a is None and b is None)
            return
        u, v = self._arr(a), self._arr(b)
        if u.shape != v.shape:
            self.failed.append('{}: shapes {} and {}'.format(label, u.shape, v.shape))
            return
        for x, y in zip(u.reshape(-1), v.reshape(-1)):
            if x != x and y != y:
                continue
            if not (abs(x - y) <= 1e-5 * (1 + max(abs(x), abs(y)))) and x != y:
                self.failed.append('{}: {!r} != {!r}'.format(label, float(x), float(y)))
                return

    def proves_eq(self, a, b):
        return False

    def check(self, label, cond):
        self.checked += 1
        if isinstance(cond, torch.Tensor):
            ok = bool(cond.all())
        else:
            ok = bool(cond)
        if not ok:
            self.failed.append(label)


def exception_site(exc):
    """(in_repo, description): does the innermost frame outside torch/python belong to the code under test?"""
    tb = traceback.extract_tb(exc.__traceback__)
    site = None
    for f in tb:
        if f.filename.startswith(REPO + '/'):
            site = ('repo', '{}:{}'.format(f.filename, f.lineno))
        elif '/verif/' in f.filename and '/symtorch/' not in f.filename:
            site = ('harness', '{}:{}'.format(f.filename, f.lineno))
    return site


def missing_private(exc):
    """the harness asked for an internal helper (leading underscore) that this version of the code does not have, or has with other arguments"""
    if isinstance(exc, AttributeError) and str(getattr(exc, 'name', '')).startswith('_'):
        return True
    tb = [f for f in traceback.extract_tb(exc.__traceback__) if '/checks/' in f.filename]
    return isinstance(exc, TypeError) and bool(tb) and re.search(r'\._[a-z]', tb[-1].line or '') is not None


UNUSABLE = 'the harness cannot use what the code returned: '


class CallRecorder(object):
    """names of the functions of the code under test that were executed"""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        def prof(frame, event, arg):
            if event == 'call':
                c = frame.f_code
                if c.co_filename.startswith(REPO):
                    self.seen.add('{}:{}'.format(c.co_filename[len(REPO) + 1:], c.co_qualname))
        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def explore(fn, params, limits, seed=1):
    """run the harness over all feasible paths; returns a result dict"""
    from . import solver
    X.reset()
    res = {'paths': 0, 'obligations': 0, 'elements': 0, 'validated': 0, 'violations': [], 'inconclusive': [],
           'functions': [], 'ops': {}, 'sat_paths': 0, 'skipped': []}
    base = dict(solver.STATS)
    stack = [[]]
    rec = CallRecorder()
    max_paths = limits.get('max_paths', 400)
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    try:
        while stack:
            prefix = stack.pop()
            torch.manual_seed(seed)
            c = SymCtx(prefix, seed=seed, limits=limits)
            c.CROSS = limits.get('cvc5')
            try:
                with rec:
                    c.run(fn, params)
            except PathAbandoned:
                pass
            except Violation as v:
                env = v.env
                names = list(c.names)
                res['violations'].append({'label': v.label, 'envs': candidates(c, env, names)})
            except (SymbolicError, Inconclusive) as e:
                tb = traceback.extract_tb(e.__traceback__)
                res['inconclusive'].append('{}: {} [{}]'.format(type(e).__name__, e, ' < '.join('{}:{}'.format(f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-12:]))))
            except Exception as e:
                site = exception_site(e)
                tb = traceback.extract_tb(e.__traceback__)
                lab = 'exception {}: {} at {}'.format(type(e).__name__, str(e)[:200], site and site[1])
                if site is not None and site[0] == 'repo':
                    res['violations'].append({'label': lab, 'envs': candidates(c, None, list(c.names))})
                elif missing_private(e):
                    res['skipped'].append(str(e))
                elif site is not None and site[0] == 'harness':
                    # reported only if the same happens with plain numbers and no engine
                    res['violations'].append({'label': UNUSABLE + lab, 'envs': candidates(c, None, list(c.names))})
                else:
                    res['inconclusive'].append(lab + ' [' + ' < '.join('{}:{}'.format(f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-6:])) + ']')
            res['paths'] += 1
            res['obligations'] += c.obligations
            res['elements'] += c.elements
            res['validated'] += c.validated
            for k, n in c.engine.ops.items():
                res['ops'][k] = res['ops'].get(k, 0) + n
            if c.obligations:
                # reachability twin: the assertion "false" must be refutable here
                if solver.feasible(c.pc) == 'sat':
                    res['sat_paths'] += 1
            stack.extend(c.pending)
            if res['violations']:
                break
            if res['paths'] >= max_paths and stack:
                res['inconclusive'].append('path limit {} reached'.format(max_paths))
                break
    finally:
        torch.set_default_dtype(old)
    if not res['violations'] and not res['inconclusive'] and not res['skipped']:
        if res['obligations'] == 0:
            res['inconclusive'].append('vacuous: no obligation was reached')
        elif res['sat_paths'] == 0:
            res['inconclusive'].append('vacuous: no path with an obligation is satisfiable')
    res['functions'] = sorted(rec.seen)
    res['solver'] = {k: solver.STATS[k] - base[k] for k in base}
    return res


def candidates(c, env, names, n=8):
    """input assignments to replay: the solver's model first, then further points inside the path condition"""
    from . import solver
    import z3
    out = []
    if env:
        out.append(env)
    rng = random.Random(c.seed)
    try:
        z = solver.Z()
        s = z3.Solver()
        s.set('timeout', 1500)
        rnd_free = [p for p in c.pc]
        for p in rnd_free:
            s.add(z(p))
        constrained = set(v.args for v in X.variables(rnd_free)) if rnd_free else set()
        for k in range(n):
            e = {}
            s.push()
            order = list(names)
            rng.shuffle(order)
            for nm in order:
                val = rng.choice([-1, 1]) * rng.randint(10, 120) / 64.0
                if nm not in constrained:
                    e[nm] = val
                    continue
                if len(constrained) < 40:
                    for val in (val, abs(val), abs(val) / 4):
                        s.push()
                        s.add(z3.Real(nm) == z3.RealVal(str(val)))
                        if s.check() == z3.sat:
                            break
                        s.pop()
            if s.check() == z3.sat:
                m = solver.model_env(s, [nm for nm in names if nm in constrained])
                e.update(m)
                out.append(e)
            s.pop()
            while s.num_scopes() > 0:
                s.pop()
    except Exception:
        pass
    if not out:
        out.append({})
    return out
