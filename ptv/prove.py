"""Discharge of verification conditions  pc |- goal  (terms.py terms).
Back ends, in order: syntactic; polynomial identity (rational functions modulo square roots and equational hypotheses);
z3 (nlsat for pure real arithmetic, the SMT core otherwise); cvc5."""
import os, sys, time, signal
from fractions import Fraction as Fr
import terms as t
from terms import T

import z3
from sympy.polys.rings import ring as sring
from sympy.polys.domains import QQ
from sympy.polys.orderings import grevlex
from sympy.polys.groebnertools import groebner as sgroebner


class Timeout(Exception):
    pass


class alarm:
    """raise Timeout in the main thread at the deadline"""

    def __init__(self, deadline):
        self.deadline = deadline

    def __enter__(self):
        self.old = None
        try:
            self.old = signal.signal(signal.SIGALRM, self.fire)
            signal.setitimer(signal.ITIMER_REAL, max(0.05, self.deadline - time.time()))
        except ValueError:
            self.old = None

    def fire(self, *a):
        raise Timeout()

    def __exit__(self, *a):
        if self.old is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        return False


# ---------------------------------------------------------------- z3
class Z:
    def __init__(self):
        self.memo = {}
        self.ax = []
        self.seen_ax = set()
        self.ints = False
        self.ufs = False
        self.vars = {}

    def real(self, x):
        e = self.c(x)
        return z3.ToReal(e) if z3.is_int(e) else e

    def c(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self._c(x)
            self.memo[x] = r
        return r

    def q(self, fr):
        return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))

    def _c(self, x):
        o = x.op
        if o == "num":
            if x.isint:
                return z3.IntVal(int(x.args[0]))
            return self.q(x.args[0])
        if o == "var":
            n = x.args[0]
            if x.isint:
                self.ints = True
                v = z3.Int(n)
            else:
                v = z3.Real(n)
            self.vars[n] = v
            if n == "pi":
                self.ax += [v > self.q(Fr("3.141592")), v < self.q(Fr("3.141593"))]
            elif n.startswith("pos!"):
                self.ax.append(v > 0)
            elif n.startswith("nn!"):
                self.ax.append(v >= 0)
            return v
        if o == "bvar":
            v = z3.Bool(x.args[0])
            self.vars[x.args[0]] = v
            return v
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "add":
            if x.isint:
                return z3.Sum([z3.IntVal(int(x.args[0]))] + [z3.IntVal(int(k)) * self.c(y) for k, y in x.args[1]])
            return z3.Sum([self.q(x.args[0])] + [self.q(k) * self.real(y) for k, y in x.args[1]])
        if o == "mul":
            cv = self.c if x.isint else self.real
            fs = [cv(y) for y, e in x.args[1] for _ in range(e)]
            k = x.args[0]
            if k != 1:
                fs.insert(0, z3.IntVal(int(k)) if x.isint else self.q(k))
            r = fs[0]
            for f in fs[1:]:
                r = r * f
            return r
        if o == "div":
            qv = z3.Real("q!%d" % x.id)
            self.ax.append(qv * self.real(x.args[1]) == self.real(x.args[0]))
            # sign facts help nlsat
            return qv
        if o == "ite":
            a, b = x.args[1], x.args[2]
            if x.isint:
                return z3.If(self.c(x.args[0]), self.c(a), self.c(b))
            return z3.If(self.c(x.args[0]), self.real(a), self.real(b))
        if o in ("eq0", "le0", "lt0"):
            a = x.args[0]
            e = self.c(a)
            return e == 0 if o == "eq0" else e <= 0 if o == "le0" else e < 0
        if o == "not":
            return z3.Not(self.c(x.args[0]))
        if o == "and":
            return z3.And([self.c(y) for y in x.args])
        if o == "or":
            return z3.Or([self.c(y) for y in x.args])
        if o == "floor":
            # f <= a < f+1
            self.ints = True
            v = z3.Int("fl!%d" % x.id)
            a = self.real(x.args[0])
            self.ax += [z3.ToReal(v) <= a, a < z3.ToReal(v) + 1]
            return v
        if o == "idiv":
            self.ints = True
            return self.c(x.args[0]) / self.c(x.args[1])
        if o == "fn":
            n = x.args[0]
            v = z3.Real("%s!%d" % (n, x.id))
            a = [self.real(y) for y in x.args[1:]]
            ax = self.ax
            if n == "sqrt":
                ax += [v >= 0, v * v == a[0]]
            elif n in ("sin", "cos"):
                other = t.mk("fn", ("cos" if n == "sin" else "sin", x.args[1]))
                ax += [v <= 1, v >= -1]
                if n == "sin" or other in self.memo:
                    w = self.c(other) if other not in self.memo else self.memo[other]
                    if ("p", x.args[1]) not in self.seen_ax:
                        self.seen_ax.add(("p", x.args[1]))
                        ax.append(v * v + w * w == 1)
            elif n == "exp":
                ax += [v > 0, v >= a[0] + 1, z3.Implies(a[0] <= 0, v <= 1), z3.Implies(a[0] < 0, v < 1)]
            elif n == "acos":
                ax += [v >= 0, v <= self.c(t.PI)]
            elif n == "asin" or n == "atan":
                ax += [2 * v >= -self.c(t.PI), 2 * v <= self.c(t.PI), z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0), z3.Implies(a[0] == 0, v == 0)]
            elif n == "atan2":
                ax += [v >= -self.c(t.PI), v <= self.c(t.PI), z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0)]
            elif n == "pow":
                ax += [z3.Implies(a[0] > 0, v > 0)]
            self.congr(x, v, n, a)
            return v
        if o in ("ufn", "ufb"):
            a = []
            for y in x.args[1:]:
                a.append(self.real(y) if not y.b else self.c(y))
            name = x.args[0]
            if not a:
                r = z3.Const(name + "()", z3.BoolSort() if o == "ufb" else z3.IntSort() if x.isint else z3.RealSort())
                if name.startswith("+"):
                    self.ax.append(r >= 0)
                if x.isint:
                    self.ints = True
                return r
            self.ufs = True
            f = z3.Function("%s/%d" % (name, len(a)), *([y.sort() for y in a] + [z3.BoolSort() if o == "ufb" else z3.IntSort() if x.isint else z3.RealSort()]))
            r = f(*a)
            if name.startswith("+"):
                self.ax.append(r >= 0)
            if x.isint:
                self.ints = True
            return r
        raise Exception("z3: " + o)

    def congr(self, x, v, n, a):
        """functional consistency for special functions applied to different (possibly equal) arguments"""
        for (m, y, w, b) in getattr(self, "apps", []):
            if m == n and len(b) == len(a) and len(getattr(self, "apps", [])) < 12:
                self.ax.append(z3.Implies(z3.And([p == q for p, q in zip(a, b)]), v == w))
                if n in ("sqrt", "acos", "exp", "pow") and len(a) == 1:
                    pass
        if not hasattr(self, "apps"):
            self.apps = []
        self.apps.append((n, x, v, a))


def relevant(pc, goal):
    """hypotheses connected to the goal through shared atoms"""
    def atoms(x):
        return set(y for y in t.subterms([x]) if y.op in ("var", "bvar", "ufn", "ufb") and not (y.op == "var" and y.args[0] == "pi"))
    g = atoms(goal)
    todo = [(p, atoms(p)) for p in pc]
    out = set()
    ch = True
    while ch:
        ch = False
        for p, a in todo:
            if p not in out and (a & g or not a):
                out.add(p)
                g |= a
                ch = True
    return [p for p in pc if p in out]


_lin = {}


def is_linear(x):
    r = _lin.get(x)
    if r is None:
        r = _lin[x] = not any(y.op in ("mul", "div", "pow", "fn") for y in t.subterms([x]))
    return r


def zval(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return Fr(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return Fr(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return None


def z3check(facts, ms, want_model=False, tactic=None):
    """'unsat' | 'sat' (model) | 'unknown'"""
    Zc = Z()
    es = [Zc.c(f) for f in facts]
    es = es + Zc.ax
    nl = not Zc.ints and not Zc.ufs
    tac = tactic or ("qfnra-nlsat" if nl else None)
    if tac == "qfnra-nlsat":
        s = z3.Tactic("qfnra-nlsat").solver()
    elif tac:
        s = z3.Tactic(tac).solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(ms))
    s.add(es)
    try:
        r = s.check()
    except z3.Z3Exception:
        return "unknown", None
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        m = None
        if want_model:
            m = {}
            try:
                mod = s.model()
                for n, v in Zc.vars.items():
                    m[n] = zval(mod, v)
            except z3.Z3Exception:
                m = None
        return "sat", m
    return "unknown", None


# ---------------------------------------------------------------- polynomials
class Poly:
    """conversion of arithmetic terms to rational functions over opaque atoms"""

    def __init__(self, ts):
        self.atoms = {}
        for x in ts:
            self.collect(x)
        # deeper square roots get larger index so that elimination goes outside in
        names = ["a%d" % i for i in range(len(self.atoms))]
        self.alist = sorted(self.atoms, key=lambda y: y.id)
        if names:
            R = sring(names, QQ, grevlex)
            self.R, gens = R[0], R[1:]
            self.gen = dict(zip(self.alist, gens))
        else:
            self.R = sring("dummy", QQ, grevlex)[0]
            self.gen = {}
        self.memo = {}

    def collect(self, x):
        o = x.op
        if o == "num":
            return
        if o == "add":
            for _, y in x.args[1]:
                self.collect(y)
        elif o == "mul":
            for y, _ in x.args[1]:
                self.collect(y)
        elif o == "div":
            self.collect(x.args[0])
            self.collect(x.args[1])
        else:
            if x in self.atoms:
                return
            if o == "fn" and x.args[0] == "sqrt":
                self.collect(x.args[1])
            if o == "fn" and x.args[0] in ("sin", "cos"):
                for n in ("cos", "sin"):
                    y = t.mk("fn", (n, x.args[1]))
                    self.atoms.setdefault(y, 1)
                return
            self.atoms[x] = 1

    def rf(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self._rf(x)
            self.memo[x] = r
        return r

    def _rf(self, x):
        R = self.R
        o = x.op
        if o == "num":
            return R(QQ(x.args[0].numerator, x.args[0].denominator)), R(1)
        if o == "add":
            n, d = R(QQ(x.args[0].numerator, x.args[0].denominator)), R(1)
            # group by denominator
            groups = {}
            for k, y in x.args[1]:
                a, b = self.rf(y)
                a = a * QQ(k.numerator, k.denominator)
                groups[b] = groups[b] + a if b in groups else a
            if d in groups:
                groups[d] = groups[d] + n
            else:
                groups[d] = n
            items = list(groups.items())
            d, n = items[0]
            for b, a in items[1:]:
                if a == 0:
                    continue
                if n == 0:
                    n, d = a, b
                    continue
                if len(b) <= 30 and len(d) <= 30 and b != 1 and d != 1:
                    g = self.gcd(d, b)
                    b1, d1 = b.quo(g), d.quo(g)
                    n, d = n * b1 + a * d1, d * b1
                else:
                    n, d = n * b + a * d, d * b
                self.guard(n)
            return self.red(n), self.red(d)
        if o == "mul":
            n, d = R(QQ(x.args[0].numerator, x.args[0].denominator)), R(1)
            for y, e in x.args[1]:
                a, b = self.rf(y)
                for _ in range(e):
                    n, d = self.red(n * a), d * b
                    self.guard(n)
            return n, self.red(d)
        if o == "div":
            a, b = self.rf(x.args[0])
            c, d = self.rf(x.args[1])
            return self.red(a * d), self.red(b * c)
        return self.gen[x], R(1)

    def guard(self, n):
        if len(n) > 60000:
            raise Timeout()

    def gcd(self, a, b):
        try:
            return a.gcd(b)
        except Exception:
            return self.R(1)

    def red(self, p):
        """s^2 -> arg for square roots with polynomial argument, sin^2 -> 1 - cos^2"""
        for i in range(len(self.alist) - 1, -1, -1):
            x = self.alist[i]
            if x.op != "fn" or x.args[0] not in ("sqrt", "sin"):
                continue
            if not any(m[i] >= 2 for m in p):
                continue
            if x.args[0] == "sin":
                c = self.gen[t.mk("fn", ("cos", x.args[1]))]
                an, ad = 1 - c * c, self.R(1)
            else:
                an, ad = self.rf(x.args[1])
            if ad != 1:
                continue
            p = self.subst_sq(p, i, an)
        return p

    def subst_sq(self, p, i, an, ad=None):
        """p with a_i^2 replaced by an (/ad, multiplied out)"""
        by = {}
        for m, c in p.items():
            e = m[i]
            h, r = divmod(e, 2)
            m2 = m[:i] + (r,) + m[i + 1:]
            q = by.setdefault(h, self.R(0))
            q[m2] = q.get(m2, QQ(0)) + c
            if q[m2] == 0:
                del q[m2]
        mx = max(by)
        res = self.R(0)
        for h, q in by.items():
            u = q * an ** h
            if ad is not None:
                u = u * ad ** (mx - h)
            res = res + u
            self.guard(res)
        return res

    def zero(self, p):
        """is the numerator p identically zero (after eliminating squares of roots, including rational arguments)?"""
        p = self.red(p)
        for i in range(len(self.alist) - 1, -1, -1):
            x = self.alist[i]
            if x.op == "fn" and x.args[0] == "sqrt" and any(m[i] >= 2 for m in p):
                an, ad = self.rf(x.args[1])
                p = self.red(self.subst_sq(p, i, an, ad))
        return p


def poly_eq(term, hyps, deadline):
    """term == 0 under equational hypotheses?"""
    P = Poly([term] + [h for h in hyps])
    n, d = P.rf(term)
    n = P.zero(n)
    if n == 0:
        return "poly"
    if not hyps:
        return None
    gs = []
    for h in hyps:
        a, b = P.rf(h)
        a = P.zero(a)
        if a != 0 and len(a) < 400:
            gs.append(a)
    for i, x in enumerate(P.alist):
        if x.op == "fn" and x.args[0] == "sqrt":
            an, ad = P.rf(x.args[1])
            gs.append(ad * P.gen[x] ** 2 - an)
        if x.op == "fn" and x.args[0] == "sin":
            c = P.gen[t.mk("fn", ("cos", x.args[1]))]
            gs.append(P.gen[x] ** 2 + c ** 2 - 1)
    if not gs:
        return None
    used = set(m[i] and i for g in gs for m in g for i in range(len(m)))
    r = n.rem(gs)
    if r == 0:
        return "poly-rem"
    if time.time() > deadline:
        return None
    with alarm(deadline):
        G = sgroebner(gs, P.R)
        if n.rem(G) == 0:
            return "groebner"
    return None


# signs: subset of {-1, 0, 1} a value may have
def smul(a, b):
    return frozenset(x * y for x in a for y in b)


ANY = frozenset((-1, 0, 1))


class Signs:
    """signs of products and quotients of polynomials whose factors occur in the hypotheses"""

    def __init__(self, pc, x, deadline):
        hy = []
        for p in pc:
            q, s = None, None
            if p.op == "lt0":
                q, s = p.args[0], frozenset((-1,))
            elif p.op == "le0":
                q, s = p.args[0], frozenset((-1, 0))
            elif p.op == "not" and p.args[0].op == "eq0":
                q, s = p.args[0].args[0], frozenset((-1, 1))
            if q is not None and not first_ite(q) and len(t.subterms([q])) < 200:
                hy.append((q, s))
        eqs = [p.args[0] for p in pc if p.op == "eq0" and len(t.subterms([p])) < 300 and not first_ite(p.args[0])]
        if first_ite(x):
            raise Timeout()
        self.P = P = Poly([x] + [q for q, _ in hy] + eqs)
        self.gs = []
        for h in eqs:
            a, b = P.rf(h)
            a = P.zero(a)
            if a != 0 and len(a) < 400:
                self.gs.append(a)
        self.known = {}
        for y, g in P.gen.items():
            if t.posi(y):
                s = frozenset((1,))
            elif t.nonneg(y):
                s = frozenset((0, 1))
            else:
                continue
            self.known[self.key(g)[0]] = s
        pend = []
        for q, s in hy:
            if time.time() > deadline:
                raise Timeout()
            fs = self.factors(q)
            if fs is not None:
                pend.append((fs, s))
        # a quotient only exists on paths where its denominator is not zero
        for y in t.subterms([x] + [q for q, _ in hy]):
            if y.op == "div":
                fs = self.factors(y.args[1])
                if fs is not None:
                    pend.append((fs, frozenset((-1, 1))))
        self.pend = pend
        # arguments of square roots in denominators etc.: a nonzero root has a positive argument
        for _ in range(3):
            for fs, s in pend:
                self.learn(fs, s)
            for y, g in P.gen.items():
                if y.op == "fn" and y.args[0] == "sqrt":
                    k = self.key(g)[0]
                    fs = self.factors(y.args[1])
                    if fs is None:
                        continue
                    if 0 not in self.known.get(k, ANY):
                        self.learn(fs, frozenset((1,)))
                    elif 0 not in self.sign(fs):
                        self.known[k] = frozenset((1,))

    def key(self, f):
        c = f.LC
        return f.monic(), 1 if c > 0 else -1

    def nz(self, p):
        """p with squares of roots removed -> (p', factor p was multiplied by)"""
        P = self.P
        p = P.red(p)
        mult = []
        for i in range(len(P.alist) - 1, -1, -1):
            x = P.alist[i]
            if x.op == "fn" and x.args[0] == "sqrt" and any(m[i] >= 2 for m in p):
                an, ad = P.rf(x.args[1])
                mx = max(m[i] // 2 for m in p)
                p = P.red(P.subst_sq(p, i, an, ad))
                if ad != 1:
                    mult.append((ad, mx))
        if self.gs and len(p) < 3000:
            p = p.rem(self.gs)
        return p, mult

    def factors(self, x):
        """list of (monic factor or None, exponent) and a constant sign; None if too big"""
        n, d = self.P.rf(x)
        return self.fact([(n, 1), (d, 1)])

    def factors_poly(self, p):
        r = self.fact([(p, 1)])
        if r is None:
            raise Timeout()
        return r

    def fact(self, todo):
        sg, out = 1, []
        k = 0
        while todo:
            p, e = todo.pop()
            p, mult = self.nz(p)
            todo += [(a, b * e) for a, b in mult]
            k += 1
            if len(p) > 600 or k > 40:
                return None
            if p == 0:
                return [(None, 1)], 0
            c, fl = p.factor_list()
            if c < 0 and e % 2:
                sg = -sg
            for f, m in fl:
                g, s = self.key(f)
                if s < 0 and (m * e) % 2:
                    sg = -sg
                out.append((g, m * e))
        return out, sg

    def fsign(self, f, e):
        s = self.known.get(f, ANY)
        if s is ANY or len(s) > 1:
            # sums of even powers
            if all(all(k % 2 == 0 for k in m) and c > 0 for m, c in f.items()):
                s = s & (frozenset((1,)) if any(not any(m) for m in f) else frozenset((0, 1)))
        if e % 2 == 0:
            s = frozenset(x * x for x in s)
        return s

    def sign(self, fs):
        l, sg = fs
        if sg == 0:
            return frozenset((0,))
        s = frozenset((sg,))
        for f, e in l:
            s = smul(s, self.fsign(f, e))
        return s

    def sign_with(self, fs):
        """sign, using one hypothesis about a product (sign(x) = sign(x h) sign(h))"""
        r = self.sign(fs)
        l, sg = fs
        if sg == 0:
            return r
        for (hl, hsg), s in self.pend:
            if 0 in s or hsg == 0 or len(s) != 1:
                continue
            d = {}
            for f, e in list(l) + list(hl):
                d[f] = d.get(f, 0) + e
            # keep even powers only where the factor might vanish
            q = frozenset((sg * hsg,))
            for f, e in d.items():
                q = smul(q, self.fsign(f, e))
            if 0 in q:
                continue
            r = r & smul(q, s)
        return r

    def learn(self, fs, s):
        l, sg = fs
        if sg == 0:
            return
        if 0 not in s:
            for f, e in l:
                self.known[f] = self.known.get(f, ANY) - {0}
        for k, (f, e) in enumerate(l):
            if e % 2 == 0:
                continue
            rest = frozenset((sg,))
            for j, (g, m) in enumerate(l):
                if j != k:
                    rest = smul(rest, self.fsign(g, m))
            if 0 in rest:
                continue
            self.known[f] = frozenset(v for v in self.known.get(f, ANY) if any(v * r in s for r in rest))


def poly_sign(pc, goal, deadline):
    """goal of the form x < 0, x <= 0 or x != 0"""
    if goal.op == "not" and goal.args[0].op == "eq0":
        x, ok = goal.args[0].args[0], frozenset((-1, 1))
    elif goal.op == "lt0":
        x, ok = goal.args[0], frozenset((-1,))
    elif goal.op == "le0":
        x, ok = goal.args[0], frozenset((-1, 0))
    else:
        return None
    for facts in ([p for p in pc if p.op != "eq0"], pc):
        S = Signs(facts, x, deadline)
        fs = S.factors(x)
        if fs is not None and (S.sign(fs) <= ok or S.sign_with(fs) <= ok):
            return "poly-sign"
        if len(facts) == len(pc):
            break
    return None


def lin_prove(pc, goal, deadline):
    """linear arithmetic over monomials: the goal as a nonnegative combination of hypotheses, of pairwise products of
    hypotheses, and of squares (denominators multiplied out where their sign is known)"""
    x = goal.args[0]
    if goal.op not in ("le0", "lt0") or first_ite(x):
        return None
    pc = [p for p in pc if p.op in ("le0", "lt0", "eq0", "not") and len(t.subterms([p])) < 250 and not first_ite(p)]
    S = Signs(pc, x, deadline)
    P = S.P
    R = P.R

    def numer(y):
        """polynomial with the sign of the term y, or None"""
        n, d = P.rf(y)
        if d != 1:
            s = S.sign(S.factors_poly(d))
            if s <= frozenset((-1,)):
                n = -n
            elif not s <= frozenset((1,)):
                n = P.red(n * d)
        n, mult = S.nz(n)
        for ad, mx in mult:
            s = S.sign(S.factors_poly(ad))
            if mx % 2 and not s <= frozenset((1,)):
                return None
        return n

    def red(p):
        p, mult = S.nz(p)
        return None if mult else p

    g = numer(x)
    if g is None or len(g) > 400:
        return None
    eqs = []
    hy = []     # (poly, strict): poly >= 0 / > 0
    seen = set()

    def addh(p, strict):
        if p is None or len(p) > 200 or p.is_ground:
            return
        k = p
        if k in seen:
            return
        seen.add(k)
        hy.append((p, strict))
    addh(g, goal.op == "le0")
    for p in pc:
        if p.op in ("le0", "lt0"):
            n = numer(p.args[0])
            if n is not None:
                addh(-n, p.op == "lt0")
        elif p.op == "eq0":
            n, _ = P.rf(p.args[0])
            n = P.red(n)
            if 0 < len(n) <= 200:
                eqs += [n, -n]
                n2 = red(n)
                if n2 is not None and n2 != 0 and n2 != n:
                    eqs += [n2, -n2]
    for y, gn in P.gen.items():
        s = S.known.get(S.key(gn)[0], ANY)
        if s <= frozenset((0, 1)):
            addh(gn, s <= frozenset((1,)))
        elif s <= frozenset((0, -1)):
            addh(-gn, s <= frozenset((-1,)))
    sq = []
    for y in t.subterms([x] + pc):
        if y.op == "mul":
            for z, e in y.args[1]:
                if e % 2 == 0:
                    n, d = P.rf(z)
                    if d == 1 and len(n) < 60:
                        sq.append(red(P.red(n ** e)))
    base = len(hy)
    for p in sq:
        addh(p, False)
    for a in range(min(base, 22)):
        for b in range(a, min(base, 22)):
            if time.time() > deadline:
                return None
            u, v = hy[a], hy[b]
            if len(u[0]) * len(v[0]) < 900:
                addh(red(u[0] * v[0]), u[1] and v[1])
    # linear programming over the monomials
    vars_ = {}

    def lin_of(p):
        out = []
        for m, c in p.items():
            if not any(m):
                out.append(z3.RealVal(str(c)))
                continue
            v = vars_.get(m)
            if v is None:
                v = vars_[m] = z3.Real("m%d" % len(vars_))
            out.append(z3.RealVal(str(c)) * v)
        return z3.Sum(out) if out else z3.RealVal(0)
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", max(100, int((deadline - time.time()) * 1000)))
    ge = lin_of(g)
    s.add(ge > 0 if goal.op == "le0" else ge >= 0)
    n0, d0 = P.rf(x)
    if d0 == 1:
        # the goal before reduction modulo the equations
        s.add(lin_of(P.red(n0)) == ge)
    for p, st in hy + [(p, False) for p in eqs]:
        e = lin_of(p)
        s.add(e > 0 if st else e >= 0)
    for m, v in list(vars_.items()):
        if all(e % 2 == 0 for e in m):
            s.add(v >= 0)
    return "linear" if s.check() == z3.unsat else None


# ---------------------------------------------------------------- driver
def simp_with(facts, x):
    m = {}
    for f in facts:
        for y in (f.args if f.op == "and" else (f,)):
            if y.op in ("eq0", "le0", "lt0", "bvar", "ufb", "or", "not"):
                if y.op == "not":
                    m[y.args[0]] = t.FALSE
                else:
                    m[y] = t.TRUE
                    if y.op != "or":
                        m[t.bnot(y)] = t.FALSE
                if y.op == "lt0":
                    m[t.mk("le0", y.args, True)] = t.TRUE
                    z = t.cmp0("eq0", y.args[0])
                    m[z] = t.FALSE
                    m[t.cmp0("le0", t.neg(y.args[0]))] = t.FALSE
                    m[t.cmp0("lt0", t.neg(y.args[0]))] = t.FALSE
    m.pop(t.TRUE, None)
    m.pop(t.FALSE, None)
    if not m:
        return x
    x = t.subst(x, m)
    # ite(e < 0, a, b) with e <= 0 known and a - b a multiple of e: the branches agree where e = 0
    for _ in range(4):
        n = {}
        for y in t.subterms([x]):
            if y.op == "ite" and y.args[0].op in ("lt0", "le0"):
                c, a, b = y.args
                e = c.args[0]
                if c.op == "lt0" and m.get(t.mk("le0", (e,), True)) is t.TRUE:
                    pick = a
                elif c.op == "le0" and m.get(t.cmp0("le0", t.neg(e))) is t.TRUE:
                    pick = b
                else:
                    continue
                if multiple(t.sub(a, b), e):
                    n[y] = pick
        if not n:
            break
        x = t.subst(x, n)
    return x


def multiple(a, e):
    c, d = t.lin(a)
    f, g = t.lin(e)
    if not g:
        return False
    y = next(iter(g))
    k = d.get(y, 0) / g[y]
    return k != 0 and c == k * f and len(d) == len(g) and all(d.get(z, 0) == k * v for z, v in g.items())


def solve_eqs(facts, goal):
    """eliminate variables defined by linear equations"""
    facts = list(facts)
    for _ in range(20):
        m = None
        for f in facts:
            if f.op == "eq0":
                c, d = t.lin(f.args[0])
                best = None
                for x, k in d.items():
                    if x.op == "var" and x.args[0] != "pi" and not x.args[0].startswith(("pos!", "nn!")):
                        rest = t.from_lin(c, dict((y, v) for y, v in d.items() if y is not x))
                        if x in t.subterms([rest]):
                            continue
                        rhs = t.scale(-1 / k, rest)
                        if x.isint and not rhs.isint:
                            continue
                        size = len(t.subterms([rhs]))
                        if size > 12:
                            continue
                        if best is None or size < best[2]:
                            best = (x, rhs, size)
                if best:
                    m = {best[0]: best[1]}
                    break
        if m is None:
            return facts, goal
        memo = {}
        nf = []
        for f in facts:
            g = t.subst(f, m, memo)
            if g is t.FALSE:
                return [t.FALSE], goal
            if g is not t.TRUE:
                nf.append(g)
        facts = nf
        goal = t.subst(goal, m, memo)
    return facts, goal


def flat(facts):
    out = []
    for f in facts:
        if f.op == "and":
            out += list(f.args)
        elif f is not t.TRUE:
            out.append(f)
    return out


def first_ite(x):
    """an innermost if-then-else condition below x"""
    best = None
    for y in t.subterms([x]):
        if y.op == "ite" and (best is None or y.id < best.id):
            best = y
    return best.args[0] if best else None


def prove(pc, goal, ms=8000, refute=None):
    """-> (verdict, how, model).  refute: weaker-than-negated-goal formula a counterexample has to satisfy (default: not goal)"""
    t0 = time.time()
    deadline = t0 + ms / 1000.0
    try:
        return _prove(flat(pc), goal, deadline, refute, 0)
    except Timeout:
        return "unknown", "size", None


def _prove(pc, goal, deadline, refute, depth):
    if goal is t.TRUE:
        return "proved", "syntactic", None
    if t.FALSE in pc:
        return "proved", "vacuous-path", None
    s = set(pc)
    if goal in s or any(t.bnot(p) in s for p in pc):
        return "proved", "syntactic", None
    if goal.op == "and":
        hows = set()
        acc = []
        for g in goal.args:
            r = _prove(pc + acc, g, deadline, None, depth)
            if r[0] != "proved":
                return r
            hows.add(r[1])
            acc.append(g)
        return "proved", "+".join(sorted(hows)), None
    g2 = simp_with(pc, goal)
    if g2 is t.TRUE:
        return "proved", "syntactic", None
    pc2, g3 = solve_eqs(pc, g2)
    if g3 is t.TRUE or t.FALSE in pc2:
        return "proved", "syntactic", None
    g3 = simp_with(pc2, g3)
    if g3 is t.TRUE:
        return "proved", "syntactic", None
    pc3 = relevant(pc2, g3)
    if is_linear(goal) and depth == 0 and len(pc) < 200:
        l = [p for p in pc if is_linear(p)]
        if 0 < len(l) < len(pc):
            r, m = z3check(l + [t.bnot(goal)], min(max(0.1, deadline - time.time()), 0.5) * 1000, False)
            if r == "unsat":
                return "proved", "z3", None
    if is_linear(g3) and depth == 0:
        # often the products do not matter
        l = [p for p in pc3 if is_linear(p)]
        if len(l) < len(pc3):
            r, m = z3check(l + [t.bnot(g3)], min(max(0.1, deadline - time.time()), 0.7) * 1000, False)
            if r == "unsat":
                return "proved", "z3", None
    # propositional structure
    if g3.op == "or":
        # prove the last disjunct under the negation of the others
        pick = [d for d in g3.args if d.op == "eq0"] or list(g3.args)
        g = pick[-1]
        rest = [d for d in g3.args if d is not g]
        return _prove(flat(pc3 + [t.bnot(d) for d in rest]), g, deadline, refute, depth + 1)
    how = None
    if g3.op == "eq0":
        g4 = sqrt_goal(g3.args[0])
        try:
            hy = [p.args[0] for p in pc3 if p.op == "eq0" and len(t.subterms([p])) < 300]
            how = poly_case(pc3, g3.args[0], hy, deadline, 0)
        except Timeout:
            how = None
        except Exception as e:
            how = None
        if not how and g4 is not None:
            try:
                how = poly_case(pc3, g4, hy, deadline, 0)
            except Timeout:
                how = None
        if how:
            return "proved", how, None
    left = deadline - time.time()
    if left <= 0:
        return "unknown", "timeout", None
    if g3.op in ("lt0", "le0", "not"):
        if len(t.subterms([g3] + pc3)) < 60:
            r, m = z3check(pc3 + [t.bnot(g3)], min(left, 0.7) * 1000, False)
            if r == "unsat":
                return "proved", "z3", None
        try:
            if poly_sign(pc3, g3, deadline):
                return "proved", "poly-sign", None
        except Timeout:
            pass
        if g3.op != "not":
            try:
                if lin_prove(pc3, g3, min(deadline, time.time() + 3)):
                    return "proved", "linear", None
            except Timeout:
                pass
        left = max(0.5, deadline - time.time())
    # quick consistency of the path itself is part of the same query
    r, m = z3check(pc3 + [t.bnot(g3)], min(left, 3) * 1000, False)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat" or r == "unknown":
        # look for a counterexample over all of the inputs
        rf = t.bnot(goal) if refute is None else refute
        left = max(0.5, deadline - time.time())
        if r == "sat" or refute is not None or True:
            r2, m2 = z3check(pc + [rf], min(left, 6) * 1000, True)
            if r2 == "sat":
                return "refuted", "z3", m2
            if r2 == "unsat" and refute is None:
                return "proved", "z3", None
    # second try with case split / other solver
    if r != "sat":
        c = first_ite(g3)
        if c is not None and depth < 8:
            a = _prove(pc + [c], goal, deadline, refute, depth + 1)
            if a[0] != "proved":
                return a
            b = _prove(pc + [t.bnot(c)], goal, deadline, refute, depth + 1)
            if b[0] != "proved":
                return b
            return "proved", "split", None
        left = deadline - time.time()
        if left > 0.3:
            for tac in ("smt", "qfnra"):
                r, _ = z3check(pc3 + [t.bnot(g3)], min(left, 8) * 1000, False, tac)
                if r == "unsat":
                    return "proved", "z3-" + tac, None
                left = deadline - time.time()
                if left < 0.3:
                    break
    return "unknown", "z3", None


def sqrt_goal(x):
    """sqrt(a) = b with b >= 0 follows from a = b^2"""
    c, d = t.lin(x)
    for y, k in d.items():
        if y.op == "fn" and y.args[0] == "sqrt":
            b = t.scale(-1 / k, t.from_lin(c, dict((z, v) for z, v in d.items() if z is not y)))
            if t.nonneg(b):
                return t.sub(y.args[1], t.mul(b, b))
    return None


def poly_case(pc, term, hy, deadline, depth):
    """polynomial identity with case split over if-then-else"""
    c = first_ite(term)
    if c is None:
        return poly_eq(term, hy, deadline)
    if depth > 7 or time.time() > deadline:
        return None
    hows = []
    for f in (c, t.bnot(c)):
        facts = pc + [f]
        tt = simp_with([f], term)
        facts2, g = solve_eqs(flat(facts), t.cmp0("eq0", tt))
        if g is t.TRUE or t.FALSE in facts2:
            hows.append("syntactic")
            continue
        # infeasible branch?
        tt = g.args[0] if g.op == "eq0" else tt
        h2 = [simp_with([f], p) for p in facts2 if p.op == "eq0" and len(t.subterms([p])) < 300]
        h2 = [p.args[0] for p in h2 if p.op == "eq0"]
        r = poly_case(flat(facts), tt, h2, deadline, depth + 1)
        if r is None:
            q, _ = z3check(relevant(facts, f), 1000)
            if q == "unsat":
                hows.append("z3")
                continue
            return None
        hows.append(r)
    return "+".join(sorted(set(hows)))
