"""SMT side: translation of terms to z3 and the decision of obligations."""
import sys
import time
from fractions import Fraction
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import expr as X
from .poly import Normaliser, TooBig

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0, 'rewritten': 0,
         'feasibility': 0, 'cvc5': 0, 'cvc5_agree': 0}
CROSSCHECK = [False]


class Z(object):
    """translation of terms to z3 (UF applications stay uninterpreted)"""

    def __init__(self):
        self.memo = {}
        self.fn = {n: z3.Function('uf_' + n, z3.RealSort(), z3.RealSort()) for n in X.UFS}

    def __call__(self, root):
        memo = self.memo
        for t in X.topo([root]):
            if t.uid in memo:
                continue
            op = t.op
            if op == 'const':
                r = z3.RealVal(str(t.args))
            elif op == 'var':
                r = z3.Real(t.args) if t.sort == 'R' else z3.Bool(t.args)
            elif op == 'true':
                r = z3.BoolVal(True)
            elif op == 'false':
                r = z3.BoolVal(False)
            else:
                a = [memo[c.uid] for c in t.args]
                if op == 'add':
                    r = z3.Sum(*a)
                elif op == 'mul':
                    r = a[0] * a[1]
                elif op == 'div':
                    r = a[0] / a[1]
                elif op == 'lt':
                    r = a[0] < a[1]
                elif op == 'le':
                    r = a[0] <= a[1]
                elif op in ('eq', 'iff'):
                    r = a[0] == a[1]
                elif op == 'not':
                    r = z3.Not(a[0])
                elif op == 'and':
                    r = z3.And(a[0], a[1])
                elif op == 'ite':
                    r = z3.If(a[0], a[1], a[2])
                else:
                    if op not in self.fn:
                        self.fn[op] = z3.Function('uf_' + op, *[z3.RealSort()] * (len(a) + 1))
                    r = self.fn[op](*a)
            memo[t.uid] = r
        return memo[root.uid]

    def axioms(self, roots):
        """facts about the transcendental applications that occur"""
        ax = []
        for t in X.topo(roots):
            if X.is_singular_value(t.op):
                ax.append(self(t) >= 0)
            if t.op in X.UFS:
                v = self(t)
                a = self(t.args[0])
                if t.op == 'tanh':
                    ax += [v > -1, v < 1, z3.Implies(a > 0, v > 0), z3.Implies(a < 0, v < 0)]
                elif t.op == 'sigmoid':
                    ax += [v > 0, v < 1]
                elif t.op == 'exp':
                    ax += [v > 0]
                elif t.op == 'sqrt':
                    ax += [v >= 0, v * v == a]
        return ax


def _check(s, kind='queries'):
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['solver_s'] += time.time() - t0
    STATS[kind] += 1
    if kind == 'queries':
        STATS[str(r)] += 1
    return r


def feasible(pc, timeout=4000):
    """'sat' / 'unsat' / 'unknown' for a list of Boolean terms"""
    z = Z()
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in pc:
        s.add(z(c))
    for a in z.axioms(pc):
        s.add(a)
    r = _check(s, 'feasibility')
    return str(r)


def _val(m, name):
    v = m.eval(z3.Real(name), model_completion=True)
    try:
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            v = v.approx(20)
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    except Exception:
        pass
    return None


def model_env(s, names):
    m = s.model()
    env = {}
    for n in names:
        v = _val(m, n)
        env[n] = 0.0 if v is None else v
    return env


def model_of(pc, names, extra=None, timeout=5000):
    z = Z()
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in list(pc) + list(extra or []):
        s.add(z(c))
    for a in z.axioms(list(pc) + list(extra or [])):
        s.add(a)
    r = _check(s, 'feasibility')
    if r == z3.sat:
        return model_env(s, names)
    return None


def _cvc5_agrees(assertions):
    """re-decide an unsat query with cvc5 (thorough tier)"""
    import subprocess, tempfile, os
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(txt)
    f.close()
    try:
        p = subprocess.run(['cvc5', '--tlimit=10000', f.name], capture_output=True, text=True, timeout=20)
        out = p.stdout.strip().split('\n')[0]
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(f.name)
    STATS['cvc5'] += 1
    if out == 'unsat':
        STATS['cvc5_agree'] += 1
    return out


def decide_equal(pc, pairs, names, timeout=3000):
    """Decide that, under pc, l==r for every pair.  Returns (verdict, env, index):
    'unsat' proved, 'sat' with a model of a violation, 'unknown'."""
    pairs = [(X.real(l) if l.sort != r.sort else l, X.real(r) if l.sort != r.sort else r) for l, r in pairs]
    todo = []
    z = Z()
    roots = [x for p in pairs for x in p]
    zpc = [z(c) for c in pc] + z.axioms(list(pc))
    # one query for the whole tensor
    s = z3.Solver()
    s.set('timeout', min(timeout, 700))
    s.add(*zpc)
    goals = []
    for l, r in pairs:
        if l.sort == 'B':
            goals.append(z(l) != z(r))
        else:
            d = z3.simplify(z(l) - z(r), som=True, som_blowup=100000) if _small(l, r) else z(l) - z(r)
            goals.append(d != 0)
    s.add(z3.Or(*goals))
    r = _check(s)
    if r == z3.unsat:
        if CROSSCHECK[0]:
            _cvc5_agrees(zpc + [z3.Or(*goals)])
        return 'unsat', None, None
    # rewriting, element by element
    verdict = 'unsat'
    for i, (l, r) in enumerate(pairs):
        if l is r:
            continue
        if l.sort == 'B':
            v, env = _decide_bool(pc, X.eq(l, r), names, timeout)
        else:
            v, env = _decide_real(pc, l, r, names, timeout)
        if v == 'sat':
            return 'sat', env, i
        if v == 'unknown' and verdict == 'unsat':
            verdict = 'unknown'
            unk = i
    if verdict == 'unknown':
        return 'unknown', None, unk
    return 'unsat', None, None


def _small(l, r):
    n = len(X.topo([l, r]))
    return n < 1500


def _decide_bool(pc, cond, names, timeout):
    z = Z()
    s = z3.Solver()
    s.set('timeout', timeout)
    roots = list(pc) + [cond]
    for c in pc:
        s.add(z(c))
    s.add(*z.axioms(roots))
    s.add(z3.Not(z(cond)))
    r = _check(s)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', model_env(s, names)
    return 'unknown', None


def _decide_real(pc, l, r, names, timeout):
    STATS['rewritten'] += 1
    d = X.sub(l, r)
    try:
        nz = Normaliser()
        (n, den), = nz.normalise([d])
        n = nz.reduce_roots(n)
        # solver query on the rewritten numerator; pc is linear-time translated over the same variables
        zatoms = {}

        def za(i):
            if i not in zatoms:
                desc = nz.atoms[i]
                zatoms[i] = z3.Real(desc[1]) if desc[0] == 'var' else z3.Real('atom!%d' % i)
            return zatoms[i]
        tot = []
        for m, c in n.items():
            term = z3.RealVal(str(c))
            for a, e in m:
                for _ in range(e):
                    term = term * za(a)
            tot.append(term)
        num = z3.Sum(*tot) if tot else z3.RealVal(0)
        s = z3.Solver()
        s.set('timeout', timeout)
        z = Z()
        for c in pc:
            s.add(z(c))
        for i in list(zatoms):
            if i in nz.idem:
                s.add(z3.Or(zatoms[i] == 0, zatoms[i] == 1))
            elif nz.atoms[i][0] in ('exp', 'expq'):
                s.add(zatoms[i] > 0)
            elif nz.atoms[i][0] == 'tanh':
                s.add(zatoms[i] > -1, zatoms[i] < 1)
        s.add(num != 0)
        res = _check(s)
        if res == z3.unsat:
            if CROSSCHECK[0]:
                _cvc5_agrees(list(s.assertions()))
            return 'unsat', None
        if res == z3.sat:
            # the atoms are over-approximated: look for a witness in the full theory first
            env = model_env(s, names)
            v, e2 = _decide_full(pc, l, r, names, timeout)
            if v == 'unsat':
                return 'unsat', None
            return 'sat', (e2 or env)
    except TooBig:
        pass
    v, env = _decide_full(pc, l, r, names, timeout * 4)
    return v, env


def _decide_full(pc, l, r, names, timeout):
    z = Z()
    s = z3.Solver()
    s.set('timeout', timeout)
    roots = list(pc) + [l, r]
    for c in pc:
        s.add(z(c))
    s.add(*z.axioms(roots))
    s.add(z(l) != z(r))
    res = _check(s)
    if res == z3.unsat:
        return 'unsat', None
    if res == z3.sat:
        return 'sat', model_env(s, names)
    return 'unknown', None


def decide_true(pc, cond, names, timeout=5000):
    return _decide_bool(pc, cond, names, timeout)
