"""Hash-consed terms: exact arithmetic (integer-valued atoms are marked), booleans, uninterpreted and special functions.

Arithmetic normal forms:  add = sum of coef*term + const,  mul = product of powers of non-numeric factors,
comparisons  eq0(t), le0(t), lt0(t)  against zero with a canonical leading coefficient."""
from fractions import Fraction as Fr

_tab = {}
_list = []


class T:
    __slots__ = ("op", "args", "id", "b", "isint", "_h")

    def __repr__(self):
        return show(self)


def mk(op, args, b=False, isint=False):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.b, t.isint = op, args, b, isint
        t.id = len(_list)
        _list.append(t)
        _tab[k] = t
    return t


def num(x):
    if not isinstance(x, Fr):
        x = Fr(x)
    return mk("num", (x,), False, x.denominator == 1)


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true", (), True), mk("false", (), True)
_fresh = [0]


def var(name, isint=False):
    return mk("var", (name, isint), False, isint)


def bvar(name):
    return mk("bvar", (name,), True)


def fresh(prefix, isint=False):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), isint)


def fresh_b(prefix):
    _fresh[0] += 1
    return bvar("%s!%d" % (prefix, _fresh[0]))


def isnum(t):
    return t.op == "num"


PI = var("pi")


def lin(t):
    """-> (const, {term: coef})"""
    if t.op == "num":
        return t.args[0], {}
    if t.op == "add":
        return t.args[0], dict((x, c) for c, x in t.args[1])
    if t.op == "mul" and t.args[0] != 1:
        return Fr(0), {mk_mul(Fr(1), t.args[1]): t.args[0]}
    return Fr(0), {t: Fr(1)}


def from_lin(c, d):
    items = [(k, x) for x, k in d.items() if k != 0]
    if not items:
        return num(c)
    if c == 0 and len(items) == 1:
        k, x = items[0]
        return scale(k, x)
    items.sort(key=lambda p: p[1].id)
    ii = c.denominator == 1 and all(x.isint and k.denominator == 1 for k, x in items)
    return mk("add", (c, tuple(items)), False, ii)


def scale(k, t):
    if k == 0:
        return ZERO
    if k == 1:
        return t
    if t.op == "num":
        return num(k * t.args[0])
    if t.op == "add":
        c, d = lin(t)
        return from_lin(c * k, dict((x, v * k) for x, v in d.items()))
    if t.op == "mul":
        return mk_mul(t.args[0] * k, t.args[1])
    return mk_mul(k, ((t, 1),))


def mk_mul(k, fs):
    if k == 0:
        return ZERO
    if not fs:
        return num(k)
    if k == 1 and len(fs) == 1 and fs[0][1] == 1:
        return fs[0][0]
    return mk("mul", (k, fs), False, k.denominator == 1 and all(x.isint and e > 0 for x, e in fs))


def add(*ts):
    c, d = Fr(0), {}
    for t in ts:
        c1, d1 = lin(t)
        c += c1
        for x, k in d1.items():
            d[x] = d.get(x, 0) + k
    return from_lin(c, d)


def neg(t):
    return scale(Fr(-1), t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    k, fs = Fr(1), {}
    for t in ts:
        if t.op == "num":
            k *= t.args[0]
        elif t.op == "mul":
            k *= t.args[0]
            for x, e in t.args[1]:
                fs[x] = fs.get(x, 0) + e
        elif t.op == "add":
            # pull a common numeric factor out so that scaled sums share
            lead = t.args[1][0][0]
            if lead != 1:
                k *= lead
                t = scale(1 / lead, t)
            if t.op == "mul":
                k *= t.args[0]
                for x, e in t.args[1]:
                    fs[x] = fs.get(x, 0) + e
            else:
                fs[t] = fs.get(t, 0) + 1
        else:
            fs[t] = fs.get(t, 0) + 1
    if k == 0:
        return ZERO
    # sqrt(t)^2 = t
    again = []
    for x in list(fs):
        if x.op == "fn" and x.args[0] == "sqrt" and fs[x] >= 2:
            h, r = divmod(fs[x], 2)
            if r:
                fs[x] = r
            else:
                del fs[x]
            again += [x.args[1]] * h
    items = tuple(sorted(((x, e) for x, e in fs.items() if e), key=lambda p: p[0].id))
    m = mk_mul(k, items)
    if again:
        return mul(m, *again)
    if len(items) == 1 and items[0][1] == 1 and items[0][0].op == "add":
        return scale(k, items[0][0])
    return m


def div(a, b):
    """b is known to be non-zero"""
    if b.op == "num":
        return scale(1 / b.args[0], a)
    if a is b:
        return ONE
    if a is ZERO:
        return ZERO
    if b.op == "div":
        return div(mul(a, b.args[1]), b.args[0])
    if a.op == "div":
        return div(a.args[0], mul(a.args[1], b))
    # x*k / x
    ka, fa = split(a)
    kb, fb = split(b)
    fb2, fa2 = dict(fb), dict(fa)
    for x in list(fb2):
        if x in fa2:
            m = min(fa2[x], fb2[x])
            fa2[x] -= m
            fb2[x] -= m
    # t / sqrt(t) = sqrt(t)
    for x in list(fb2):
        if fb2[x] and x.op == "fn" and x.args[0] == "sqrt" and fa2.get(x.args[1], 0) > 0:
            fa2[x.args[1]] -= 1
            fb2[x] -= 1
            fa2[x] = fa2.get(x, 0) + 1
    n = mul(num(ka / kb), *[x for x, e in fa2.items() for _ in range(e)])
    d = mul(*[x for x, e in fb2.items() for _ in range(e)]) if any(fb2.values()) else ONE
    if d.op == "num":
        return scale(1 / d.args[0], n)
    if n is ZERO:
        return ZERO
    kn, fn = split(n)
    n1 = mk_mul(Fr(1), fn) if n.op != "add" else n
    if n.op == "add":
        lead = n.args[1][0][0]
        n1 = scale(1 / lead, n)
        kn = lead
    return scale(kn, mk("div", (n1, d)))


def split(t):
    if t.op == "num":
        return t.args[0], ()
    if t.op == "mul":
        return t.args[0], t.args[1]
    return Fr(1), ((t, 1),)


def cmp0(op, t):
    if t.op == "num":
        v = t.args[0]
        return boolv(v == 0 if op == "eq0" else v <= 0 if op == "le0" else v < 0)
    if t.op == "ite" and t.args[1].op == "num" and t.args[2].op == "num":
        return bite(t.args[0], cmp0(op, t.args[1]), cmp0(op, t.args[2]))
    c, d = lin(t)
    items = sorted(d.items(), key=lambda p: p[0].id)
    lead = items[0][1]
    if t.isint or all(x.isint for x in d):
        # integer: make coefficients coprime, tighten
        from math import gcd
        den = 1
        for _, k in items:
            den = den * k.denominator // gcd(den, k.denominator)
        g = 0
        for _, k in items:
            g = gcd(g, int(k * den))
        s = Fr(den, g)
        c2 = c * s
        d = dict((x, k * s) for x, k in d.items())
        if op == "eq0":
            if c2.denominator != 1:
                return FALSE
            if items[0][1] < 0:
                c2, d = -c2, dict((x, -k) for x, k in d.items())
        else:
            # sum + c2 <= 0  <=>  sum <= floor(-c2);  strict: sum <= ceil(-c2)-1
            if op == "le0":
                c2 = Fr(-((-c2).__floor__()))
            else:
                c2 = Fr(-((-c2).__ceil__() - 1))
                op = "le0"
        t = from_lin(c2, d)
        return mk(op, (t,), True)
    k = lead if op == "eq0" else abs(lead)
    t = scale(1 / k, t)
    if op == "eq0":
        # products, quotients and square roots
        if t.op == "mul":
            return bor(*[cmp0("eq0", x) for x, _ in t.args[1]])
        if t.op == "div":
            return cmp0("eq0", t.args[0])
        if t.op == "fn" and t.args[0] == "sqrt":
            return cmp0("eq0", t.args[1])
        if t.op == "fn" and t.args[0] == "exp":
            return FALSE
        if posi(t):
            return FALSE
    elif op == "le0":
        if t.op == "fn" and t.args[0] == "sqrt":
            return cmp0("eq0", t.args[1])
        if posi(t):
            return FALSE
        if nonneg(neg(t)):
            return TRUE
        if t.op == "mul" and t.args[0] < 0 and all(e % 2 == 0 for _, e in t.args[1]):
            return TRUE
    else:
        if nonneg(t):
            return FALSE
        if posi(neg(t)):
            return TRUE
        m = neg(t)
        if m.op == "fn" and m.args[0] == "sqrt":      # -sqrt(x) < 0
            return bnot(cmp0("eq0", m.args[1]))
        if m.op == "mul" and m.args[0] > 0 and all(e % 2 == 0 for _, e in m.args[1]):
            return bnot(cmp0("eq0", m))
    return mk(op, (t,), True)


def eq(a, b):
    if a is b:
        return TRUE
    return cmp0("eq0", sub(a, b))


def le(a, b):
    if a is b:
        return TRUE
    return cmp0("le0", sub(a, b))


def lt(a, b):
    if a is b:
        return FALSE
    return cmp0("lt0", sub(a, b))


_nn = {}


def nonneg(t):
    """syntactic: t >= 0 whenever defined"""
    r = _nn.get(t)
    if r is None:
        r = _nn[t] = _nonneg(t)
    return r


def _nonneg(t):
    o = t.op
    if o == "num":
        return t.args[0] >= 0
    if o == "var":
        return t.args[0] == "pi" or t.args[0].startswith(("pos!", "nn!"))
    if o == "add":
        return t.args[0] >= 0 and all(k > 0 and nonneg(x) or k < 0 and nonpos(x) for k, x in t.args[1])
    if o == "mul":
        if t.args[0] < 0:
            return False
        return all(e % 2 == 0 or nonneg(x) for x, e in t.args[1])
    if o == "div":
        return nonneg(t.args[0]) and nonneg(t.args[1])
    if o == "fn":
        return t.args[0] in ("sqrt", "exp", "acos")
    if o == "ufn":
        return t.args[0].startswith("+")
    if o == "ite":
        c, a, b = t.args
        if c.op in ("le0", "lt0"):
            # ite(x <= 0, -x, x) and friends (absolute value), max(x, 0)
            x = c.args[0]
            if (a is neg(x) or nonneg(a)) and (b is x or nonneg(b)):
                return True
            if c.op == "lt0" or c.op == "le0":
                l = lin(x)
                if len(l[1]) == 1 and l[0] == 0:
                    y, k = list(l[1].items())[0]
                    na, pb = (neg(y), y) if k > 0 else (y, neg(y))
                    if (a is na or nonneg(a)) and (b is pb or nonneg(b)):
                        return True
        return nonneg(a) and nonneg(b)
    return False


def nonpos(t):
    if t.op == "num":
        return t.args[0] <= 0
    return False


def posi(t):
    o = t.op
    if o == "num":
        return t.args[0] > 0
    if o == "var":
        return t.args[0] == "pi" or t.args[0].startswith("pos!")
    if o == "add":
        return nonneg(t) and (t.args[0] > 0 or any(k > 0 and posi(x) for k, x in t.args[1]))
    if o == "mul":
        return t.args[0] > 0 and all(posi(x) for x, e in t.args[1])
    if o == "div":
        return posi(t.args[0]) and posi(t.args[1])
    if o == "fn":
        return t.args[0] == "exp" or t.args[0] == "sqrt" and posi(t.args[1])
    if o == "ite":
        return posi(t.args[1]) and posi(t.args[2])
    return False


def boolv(x):
    return TRUE if x else FALSE


def bnot(c):
    o = c.op
    if o == "true":
        return FALSE
    if o == "false":
        return TRUE
    if o == "not":
        return c.args[0]
    if o == "le0":
        return cmp0("lt0", neg(c.args[0]))
    if o == "lt0":
        return cmp0("le0", neg(c.args[0]))
    if o == "and":
        return bor(*[bnot(x) for x in c.args])
    if o == "or":
        return band(*[bnot(x) for x in c.args])
    return mk("not", (c,), True)


def band(*cs):
    s = {}
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        for x in (c.args if c.op == "and" else (c,)):
            s[x] = 1
    for x in s:
        if bnot(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda x: x.id)), True)


def bor(*cs):
    s = {}
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        for x in (c.args if c.op == "or" else (c,)):
            s[x] = 1
    for x in s:
        n = bnot(x) if x.op not in ("and", "or") else None
        if n is not None and n in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk("or", tuple(sorted(s, key=lambda x: x.id)), True)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def biff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.b:
        return bite(c, a, b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", (c, a, b), False, a.isint and b.isint)


def absv(t):
    if t.op == "num":
        return num(abs(t.args[0]))
    if nonneg(t):
        return t
    if nonneg(neg(t)):
        return neg(t)
    return ite(lt(t, ZERO), neg(t), t)


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(le(b, a), a, b)


def floor(t):
    if t.op == "num":
        return num(t.args[0].__floor__())
    if t.isint:
        return t
    c, d = lin(t)
    # integer part of the sum comes out
    out, rest = {}, {}
    for x, k in d.items():
        (out if x.isint and k.denominator == 1 else rest)[x] = k
    ci = c.__floor__()
    if not rest:
        return from_lin(Fr(ci), out)
    inner = from_lin(c - ci, rest)
    return add(from_lin(Fr(ci), out), mk("floor", (inner,), False, True))


def ceil(t):
    return neg(floor(neg(t)))


def trunc(t):
    if t.isint:
        return t
    if t.op == "num":
        return num(int(t.args[0]))
    if nonneg(t):
        return floor(t)
    return ite(le(ZERO, t), floor(t), ceil(t))


def fn(name, *args):
    a = args[0] if args else None
    if name == "sqrt":
        if a.op == "num":
            v = a.args[0]
            from math import isqrt
            if v >= 0 and isqrt(v.numerator) ** 2 == v.numerator and isqrt(v.denominator) ** 2 == v.denominator:
                return num(Fr(isqrt(v.numerator), isqrt(v.denominator)))
        if a.op == "mul" and all(e % 2 == 0 for _, e in a.args[1]):
            k = fn("sqrt", num(a.args[0]))
            return mul(k, absv(mk_mul(Fr(1), tuple((x, e // 2) for x, e in a.args[1]))))
    elif name in ("sin", "cos"):
        r = trig_const(name, a)
        if r is not None:
            return r
        c, d = lin(a)
        k = d.get(PI)
        if k and (2 * k).denominator == 1:      # shift by quarter turns
            r = sub(a, scale(k, PI))
            s_, c_ = (fn("sin", r), fn("cos", r))
            q = int(2 * k) % 4
            return ((s_, c_, neg(s_), neg(c_)) if name == "sin" else (c_, neg(s_), neg(c_), s_))[q]
        if a.op == "fn" and a.args[0] == "acos":
            x = a.args[1]
            return x if name == "cos" else fn("sqrt", sub(ONE, mul(x, x)))
        if a.op == "fn" and a.args[0] == "asin":
            x = a.args[1]
            return x if name == "sin" else fn("sqrt", sub(ONE, mul(x, x)))
        if a.op == "fn" and a.args[0] == "atan":
            h = fn("sqrt", add(ONE, mul(a.args[1], a.args[1])))
            return div(ONE if name == "cos" else a.args[1], h)
        # sign normalisation
        c, d = lin(a)
        if c == 0 and d and sorted(d.items(), key=lambda p: p[0].id)[0][1] < 0:
            return fn("cos", neg(a)) if name == "cos" else neg(fn("sin", neg(a)))
    elif name == "tan":
        return div(fn("sin", a), fn("cos", a))
    elif name == "exp" and a is ZERO:
        return ONE
    elif name == "ln":
        if a is ONE:
            return ZERO
        if a.op == "fn" and a.args[0] == "exp":
            return a.args[1]
    elif name == "acos" and a.op == "num":
        if a.args[0] == 1:
            return ZERO
        if a.args[0] == -1:
            return PI
        if a.args[0] == 0:
            return scale(Fr(1, 2), PI)
    elif name == "atan" and a is ZERO:
        return ZERO
    return mk("fn", (name,) + args, False, False)


def trig_const(name, a):
    c, d = lin(a)
    if c != 0 or any(x is not PI for x in d):
        return None
    k = d.get(PI, Fr(0)) % 2          # a = k*pi
    if name == "cos":
        k = (k + Fr(1, 2)) % 2
    # sin(k pi)
    tab = {Fr(0): 0, Fr(1, 6): Fr(1, 2), Fr(1, 2): 1, Fr(5, 6): Fr(1, 2), Fr(1): 0, Fr(7, 6): -Fr(1, 2), Fr(3, 2): -1, Fr(11, 6): -Fr(1, 2)}
    if k in tab:
        return num(tab[k])
    if k in (Fr(1, 4), Fr(3, 4)):
        return fn("sqrt", num(Fr(1, 2)))
    if k in (Fr(5, 4), Fr(7, 4)):
        return neg(fn("sqrt", num(Fr(1, 2))))
    return None


def ufn(name, args, isint=False):
    """uninterpreted function; a leading '+' in the name marks non-negative results"""
    return mk("ufn", (name,) + tuple(args), False, isint)


def ufb(name, args):
    return mk("ufb", (name,) + tuple(args), True)


def idiv(a, b):
    """floor division of integers, b > 0 constant or known positive"""
    if isnum(a) and isnum(b):
        return num(a.args[0] // b.args[0])
    if isnum(b):
        return floor(scale(1 / b.args[0], a))
    return mk("idiv", (a, b), False, True)


def imod(a, b):
    if isnum(a) and isnum(b):
        return num(a.args[0] % b.args[0])
    return sub(a, mul(b, idiv(a, b)))


def children(t):
    o = t.op
    if o == "add":
        return [x for _, x in t.args[1]]
    if o == "mul":
        return [x for x, _ in t.args[1]]
    if o in ("num", "var", "bvar", "true", "false"):
        return []
    if o in ("fn", "ufn", "ufb"):
        return [x for x in t.args[1:] if isinstance(x, T)]
    return list(t.args)


def subterms(ts):
    seen, st = {}, list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen[t] = 1
        st.extend(children(t))
    return seen


def subst(t, m, memo=None):
    """replace terms (any nodes) according to dict m, rebuilding with simplification"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
        memo[t] = r
        return r
    ch = children(t)
    if not ch:
        r = t
    else:
        new = [subst(x, m, memo) for x in ch]
        if all(a is b for a, b in zip(ch, new)):
            r = t
        else:
            r = rebuild(t, new)
    memo[t] = r
    return r


def rebuild(t, new):
    o = t.op
    if o == "add":
        return add(num(t.args[0]), *[scale(k, n) for (k, _), n in zip(t.args[1], new)])
    if o == "mul":
        return mul(num(t.args[0]), *[n for (_, e), n in zip(t.args[1], new) for _ in range(e)])
    if o == "div":
        if new[1] is ZERO:
            return mk("div", (new[0], new[1]))
        return div(new[0], new[1])
    if o in ("eq0", "le0", "lt0"):
        return cmp0(o, new[0])
    if o == "not":
        return bnot(new[0])
    if o == "and":
        return band(*new)
    if o == "or":
        return bor(*new)
    if o == "ite":
        return ite(*new)
    if o == "floor":
        return floor(new[0])
    if o == "idiv":
        return idiv(*new)
    if o == "fn":
        return fn(t.args[0], *new)
    if o == "ufn":
        return mk("ufn", (t.args[0],) + tuple(new), False, t.isint)
    if o == "ufb":
        return mk("ufb", (t.args[0],) + tuple(new), True)
    raise Exception(o)


class Undefd(Exception):
    pass


def evalf(t, env, memo):
    """floating evaluation under env {var name: value}; raises Undefd for undefined terms"""
    import math
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "num":
        r = float(t.args[0])
    elif o == "var":
        if t.args[0] == "pi":
            r = math.pi
        else:
            if t.args[0] not in env:
                raise Undefd(t.args[0])
            r = float(env[t.args[0]])
    elif o == "bvar":
        if t.args[0] not in env:
            raise Undefd(t.args[0])
        r = env[t.args[0]] > 0
    elif o == "true":
        r = True
    elif o == "false":
        r = False
    elif o == "add":
        r = float(t.args[0]) + sum(float(k) * evalf(x, env, memo) for k, x in t.args[1])
    elif o == "mul":
        r = float(t.args[0])
        for x, e in t.args[1]:
            r *= evalf(x, env, memo) ** e
    elif o == "div":
        d = evalf(t.args[1], env, memo)
        if d == 0:
            raise Undefd("div")
        r = evalf(t.args[0], env, memo) / d
    elif o == "ite":
        r = evalf(t.args[1] if evalf(t.args[0], env, memo) else t.args[2], env, memo)
    elif o == "eq0":
        v = evalf(t.args[0], env, memo)
        r = abs(v) < getattr(env, "tol", 1e-12)
    elif o == "le0":
        r = evalf(t.args[0], env, memo) <= 0
    elif o == "lt0":
        r = evalf(t.args[0], env, memo) < 0
    elif o == "not":
        r = not evalf(t.args[0], env, memo)
    elif o == "and":
        r = all(evalf(x, env, memo) for x in t.args)
    elif o == "or":
        r = any(evalf(x, env, memo) for x in t.args)
    elif o == "floor":
        r = math.floor(evalf(t.args[0], env, memo))
    elif o == "idiv":
        r = evalf(t.args[0], env, memo) // evalf(t.args[1], env, memo)
    elif o == "fn":
        a = [evalf(x, env, memo) for x in t.args[1:]]
        n = t.args[0]
        try:
            r = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "exp": math.exp, "ln": math.log, "acos": math.acos, "asin": math.asin,
                 "atan": math.atan, "atan2": math.atan2, "pow": math.pow}[n](*a)
        except (ValueError, OverflowError, KeyError):
            raise Undefd(n)
    elif o in ("ufn", "ufb"):
        a = [evalf(x, env, memo) for x in t.args[1:]]
        r = max(a) if t.args[0] == "max3" else env["%s|%s" % (t.args[0], "|".join("%.9g" % x for x in a))]
        if o == "ufb":
            r = r > 0
    else:
        raise Undefd(o)
    memo[t] = r
    return r


def show(t, d=0):
    o = t.op
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1)
    if o == "num":
        return str(t.args[0])
    if o in ("var", "bvar"):
        return t.args[0]
    if o in ("true", "false"):
        return o
    if o == "add":
        r = [("" if k == 1 else "-" if k == -1 else "%s*" % k) + s(x) for k, x in t.args[1]]
        if t.args[0]:
            r.append(str(t.args[0]))
        return "(" + " + ".join(r) + ")"
    if o == "mul":
        r = [s(x) + ("^%d" % e if e != 1 else "") for x, e in t.args[1]]
        if t.args[0] != 1:
            r.insert(0, str(t.args[0]))
        return "*".join(r)
    if o == "div":
        return "%s/%s" % (s(t.args[0]), s(t.args[1]))
    if o in ("eq0", "le0", "lt0"):
        return "%s %s 0" % (s(t.args[0]), {"eq0": "==", "le0": "<=", "lt0": "<"}[o])
    if o in ("fn", "ufn", "ufb"):
        return "%s(%s)" % (t.args[0], ", ".join(s(x) for x in t.args[1:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in t.args))
