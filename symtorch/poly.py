"""Sound term rewriting used before a query goes to the solver.

A real term is rewritten into a quotient N/D of multivariate polynomials over
*atoms* (variables, applications of transcendental functions to arguments in
the same normal form, and 0/1 indicators of conditions).  The identities used
are: the field axioms, b*b=b for indicators, exp(x+y)=exp(x)exp(y),
tanh(x)=1-2/(1+exp(2x)), sigmoid(x)=1/(1+exp(-x)), sqrt(x)^2=x.
D is a product of denominators the program itself divided by (their
non-vanishing is an assumption or a separate obligation) and of 1+exp(.)>0.
"""
from fractions import Fraction
from functools import reduce
import math
from . import expr as X


class TooBig(Exception):
    pass


LIMIT = 60000


class Normaliser(object):
    def __init__(self, limit=LIMIT):
        self.limit = limit
        self.memo = {}
        self.atoms = []          # index -> descriptor tuple
        self.index = {}          # descriptor -> index
        self.idem = set()        # indices of indicator atoms
        self.sqrts = {}          # index -> polynomial (N,D) of the argument, for s^2 reduction
        self.exp_terms = None
        self.exp_unit = {}       # monomial -> gcd of coefficients
        self.has_exp = False
        self.one = {(): Fraction(1)}

    # ---- polynomials: dict monomial -> Fraction; monomial: tuple of (atom, exponent), sorted
    def atom(self, desc):
        i = self.index.get(desc)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(desc)
            self.index[desc] = i
            if desc[0] == 'ind':
                self.idem.add(i)
        return i

    def padd(self, a, b):
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        if len(r) > self.limit:
            raise TooBig()
        return r

    def mmul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        idem = self.idem
        for a in d:
            if a in idem and d[a] > 1:
                d[a] = 1
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        r = {}
        if len(a) * len(b) > 40 * self.limit:
            raise TooBig()
        need_sqrt = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                v = r.get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        r = {m: c for m, c in r.items() if c != 0}
        if len(r) > self.limit:
            raise TooBig()
        return r

    def pscale(self, a, c):
        return {m: v * c for m, v in a.items()} if c != 0 else {}

    # ---- quotients: (N, D) with D a dict: frozen-polynomial-index -> exponent (factored)
    # D kept as dict {key: (poly, exponent)} to find common denominators cheaply
    @staticmethod
    def pkey(p):
        return tuple(sorted(p.items()))

    def qadd(self, qs):
        # common denominator: max exponent of every factor
        D = {}
        for n, d in qs:
            for k, (p, e) in d.items():
                if k not in D or D[k][1] < e:
                    D[k] = (p, e)
        tot = {}
        for n, d in qs:
            t = n
            for k, (p, e) in D.items():
                have = d[k][1] if k in d else 0
                for _ in range(e - have):
                    t = self.pmul(t, p)
            tot = self.padd(tot, t)
        if not tot:
            return ({}, {})
        return (tot, D)

    def qmul(self, a, b):
        if not a[0] or not b[0]:
            return ({}, {})
        D = dict(a[1])
        for k, (p, e) in b[1].items():
            D[k] = (p, e + (D[k][1] if k in D else 0))
        return self.qcancel(self.pmul(a[0], b[0]), D)

    def qcancel(self, n, D):
        # cancel denominators that are single monomials (e.g. weights, exp units)
        if not D or not n:
            return (n, D)
        for k in list(D):
            p, e = D[k]
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    a = m[0][0]
                    mn = min((dict(mm).get(a, 0) for mm in n))
                    cut = min(mn, e)
                    if cut:
                        nn = {}
                        for mm, cc in n.items():
                            d = dict(mm)
                            d[a] -= cut
                            if d[a] == 0:
                                del d[a]
                            nn[tuple(sorted(d.items()))] = cc
                        n = nn
                        if e - cut:
                            D[k] = (p, e - cut)
                        else:
                            del D[k]
            if n == p and k in D:
                # exact cancellation
                n = self.one
                e2 = D[k][1] - 1
                if e2:
                    D[k] = (p, e2)
                else:
                    del D[k]
        return (n, D)

    def qinv(self, a):
        n, d = a
        # 1/(n/d) = d/n
        num = self.one
        for k, (p, e) in d.items():
            for _ in range(e):
                num = self.pmul(num, p)
        if len(n) == 1:
            (m, c), = n.items()
            D = {}
            for at, e in m:
                p = {((at, 1),): Fraction(1)}
                D[self.pkey(p)] = (p, e)
            return self.qcancel(self.pscale(num, 1 / c), D)
        # make the factor monic in its first monomial, so equal factors share a key
        lead = n[min(n)]
        p = self.pscale(n, 1 / lead)
        return self.qcancel(self.pscale(num, 1 / lead), {self.pkey(p): (p, 1)})

    def qkey(self, q):
        n, d = q
        return (self.pkey(n), tuple(sorted((k, e) for k, (p, e) in d.items())))

    # ---- exp handling
    def exp_of(self, q):
        n, d = q
        if d:
            return self.exp_atom_power(('expq', self.qkey(q)), 1)
        r = (self.one, {})
        for m, c in n.items():
            unit = self.exp_unit.get(m)
            if unit is None:
                unit = abs(c)
                self.exp_unit[m] = unit
            k = c / unit
            if k.denominator != 1:
                raise RestartUnits(m, _fgcd(unit, c))
            r = self.qmul(r, self.exp_atom_power(('exp', m, unit), int(k)))
        return r

    def exp_atom_power(self, desc, k):
        i = self.atom(desc)
        if k >= 0:
            return ({((i, k),): Fraction(1)} if k else self.one, {})
        p = {((i, 1),): Fraction(1)}
        return (self.one, {self.pkey(p): (p, -k)})

    def cond(self, c):
        """indicator (N,D) of a Boolean term"""
        if c.op == 'true':
            return (self.one, {})
        if c.op == 'false':
            return ({}, {})
        if c.op == 'not':
            q = self.cond(c.args[0])
            return self.qadd([(self.one, {}), (self.pscale(q[0], Fraction(-1)), q[1])])
        if c.op == 'and':
            return self.qmul(self.cond(c.args[0]), self.cond(c.args[1]))
        if c.op in ('lt', 'le', 'eq'):
            q = self.qadd([self.norm1(c.args[0]), self._neg(self.norm1(c.args[1]))])
            n, d = q
            if not n:
                return ({}, {}) if c.op == 'lt' else (self.one, {})
            if len(n) == 1 and () in n and not d:
                v = n[()]
                t = v < 0 if c.op == 'lt' else (v <= 0 if c.op == 'le' else False)
                return (self.one, {}) if t else ({}, {})
            if d:
                return self._ind((c.op, self.qkey(q)))
            # normalise the positive scale; generic position lets us fold the sign
            lead = n[min(n)]
            s = self.pscale(n, 1 / abs(lead))
            if c.op == 'eq':
                s = self.pscale(n, 1 / lead)
                return self._ind(('eq', self.pkey(s)))
            if X.GENERIC[0] and lead < 0:
                q = self._ind(('lt', self.pkey(self.pscale(s, Fraction(-1)))))
                return self.qadd([(self.one, {}), self._neg(q)])
            return self._ind((c.op, self.pkey(s)))
        if c.op == 'iff':
            a = self.cond(c.args[0])
            b = self.cond(c.args[1])
            # 1 - a - b + 2ab
            ab = self.qmul(a, b)
            return self.qadd([(self.one, {}), self._neg(a), self._neg(b), (self.pscale(ab[0], Fraction(2)), ab[1])])
        return self._ind(('b', c.uid))

    def _ind(self, desc):
        i = self.atom(('ind',) + desc)
        return ({((i, 1),): Fraction(1)}, {})

    def _neg(self, q):
        return (self.pscale(q[0], Fraction(-1)), q[1])

    def norm1(self, t):
        return self.memo[t.uid]

    def normalise(self, roots):
        for attempt in range(20):
            try:
                self._run(roots)
                return [self.memo[r.uid] for r in roots]
            except RestartUnits as e:
                self.exp_unit[e.m] = e.unit
                self.memo = {}
                self.atoms = []
                self.index = {}
                self.idem = set()
                self.sqrts = {}
        raise TooBig()

    def _run(self, roots):
        order = X.topo(roots)
        names = set(t.op for t in order)
        exp_mode = len(names & {'exp', 'sigmoid', 'tanh'}) > 1 or 'exp' in names
        for t in order:
            if t.uid in self.memo or t.sort == 'B':
                continue
            op = t.op
            if op == 'const':
                r = ({(): t.args} if t.args != 0 else {}, {})
            elif op == 'var':
                r = ({((self.atom(('var', t.args)), 1),): Fraction(1)}, {})
            elif op == 'add':
                r = self.qadd([self.memo[a.uid] for a in t.args])
            elif op == 'mul':
                r = self.qmul(self.memo[t.args[0].uid], self.memo[t.args[1].uid])
            elif op == 'div':
                den = self.memo[t.args[1].uid]
                if not den[0]:
                    raise TooBig()
                r = self.qmul(self.memo[t.args[0].uid], self.qinv(den))
            elif op == 'ite':
                c = self.cond(t.args[0])
                a = self.memo[t.args[1].uid]
                b = self.memo[t.args[2].uid]
                # b + c*(a-b)
                r = self.qadd([b, self.qmul(c, self.qadd([a, self._neg(b)]))])
            elif op == 'exp':
                r = self.exp_of(self.memo[t.args[0].uid])
            elif op in ('sigmoid', 'tanh') and exp_mode:
                a = self.memo[t.args[0].uid]
                k = Fraction(-1) if op == 'sigmoid' else Fraction(2)
                e = self.exp_of((self.pscale(a[0], k), a[1]))
                inv = self.qinv(self.qadd([(self.one, {}), e]))
                if op == 'sigmoid':
                    r = inv
                else:
                    r = self.qadd([(self.one, {}), (self.pscale(inv[0], Fraction(-2)), inv[1])])
            elif op == 'sigmoid' and self.memo[t.args[0].uid][0] and min_lead(self.memo[t.args[0].uid][0]) < 0:
                # sigmoid(-x) = 1-sigmoid(x): canonical sign of the argument
                a = self.memo[t.args[0].uid]
                i = self.atom((op, self.qkey(self._neg(a))))
                r = ({(): Fraction(1), ((i, 1),): Fraction(-1)}, {})
            elif op in ('tanh', 'sin') :
                # odd function: canonical sign of the argument
                a = self.memo[t.args[0].uid]
                if not a[0]:
                    r = ({}, {})
                else:
                    lead = a[0][min(a[0])]
                    s = 1 if lead > 0 else -1
                    i = self.atom((op, self.qkey((self.pscale(a[0], Fraction(s)), a[1]))))
                    r = ({((i, 1),): Fraction(s)}, {})
            else:
                i = self.atom((op,) + tuple(self.qkey(self.memo[a.uid]) for a in t.args))
                r = ({((i, 1),): Fraction(1)}, {})
                if op == 'sqrt':
                    self.sqrts[i] = self.memo[t.args[0].uid]
            self.memo[t.uid] = r

    def reduce_roots(self, p):
        """numerator that vanishes exactly when p does, with s*s replaced by x for s=sqrt(x)"""
        for i in sorted(self.sqrts, reverse=True):
            n, d = self.sqrts[i]
            for _ in range(64):
                lo, hi = {}, {}
                for m, c in p.items():
                    e = dict(m).get(i, 0)
                    if e < 2:
                        lo[m] = c
                    else:
                        mm = tuple(sorted((a, k - 2 if a == i else k) for a, k in m if a != i or k > 2))
                        hi[mm] = c
                if not hi:
                    break
                for q, e in d.values():
                    for _e in range(e):
                        lo = self.pmul(lo, q)
                p = self.padd(lo, self.pmul(hi, n))
        return p


def min_lead(p):
    return p[min(p)]


class RestartUnits(Exception):
    def __init__(self, m, unit):
        self.m = m
        self.unit = unit


def _fgcd(a, b):
    a = abs(Fraction(a))
    b = abs(Fraction(b))
    d = a.denominator * b.denominator // math.gcd(a.denominator, b.denominator)
    return Fraction(math.gcd(int(a * d), int(b * d)), d)
