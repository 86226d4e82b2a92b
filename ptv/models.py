"""Meaning of the contract primitives and of library functions whose bodies are not executed."""
import re
from fractions import Fraction as Fr
import terms as t
from terms import T, ZERO, ONE, TRUE, FALSE
from symex import *

TAB = {}
PAT = []


def model(*names):
    def d(f):
        for n in names:
            TAB[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PAT.append((re.compile(rx), f))
        return f
    return d


_cache = {}


def find(ex, f, key):
    if f.get("local") and f.get("body") is not None and not key.startswith("pt::ptv::"):
        return None
    r = _cache.get(key, 0)
    if r != 0:
        return r if r is None or not getattr(r, "only_without_body", False) or f.get("body") is None else None
    r = TAB.get(key)
    if r is None:
        for rx, g in PAT:
            if rx.search(key):
                r = g
                break
    _cache[key] = r
    return r


def some(x):
    return Agg(1, (x,))


NONE = Agg(0, ())


def P(n):
    return "pt::ptv::" + n


# ------------------------------------------------------------------ contract primitives
def newvar(ex, st, kind, prefix="r", isint=False):
    v = t.var("%s%d" % (prefix, len(st.inputs)), isint)
    st.inputs.append((kind, v))
    return v


@model(P("real"), P("real64"))
def _(ex, st, a, c):
    return newvar(ex, st, "real")


@model(P("pos"))
def _(ex, st, a, c):
    return newvar(ex, st, "real", "pos!")


@model(P("nonneg"))
def _(ex, st, a, c):
    return newvar(ex, st, "real", "nn!")


@model(P("real_in"))
def _(ex, st, a, c):
    lo, hi = a
    v = newvar(ex, st, "real", "nn!" if lo is ZERO else "r")
    ex.assume(st, t.band(t.le(lo, v), t.le(v, hi)))
    return v


@model(P("realx"))
def _(ex, st, a, c):
    n = len(st.inputs)
    for k, s in enumerate((INF, NINF, NAN)):
        if ex.decide(st, t.bvar("cx%d_%d" % (n, k))):
            st.inputs.append(("real", s))
            return s
    return newvar(ex, st, "real")


@model(P("real_or_inf"))
def _(ex, st, a, c):
    n = len(st.inputs)
    if ex.decide(st, t.bvar("cx%d" % n)):
        st.inputs.append(("real", INF))
        return INF
    return newvar(ex, st, "real")


@model(P("int"), P("uint"), P("size"))
def _(ex, st, a, c):
    lo, hi = a
    if lo is hi:
        st.inputs.append(("int", lo))
        return lo
    v = newvar(ex, st, "int", "nn!i" if t.nonneg(lo) else "i", True)
    ex.assume(st, t.band(t.le(lo, v), t.le(v, hi)))
    return v


@model(P("choose"))
def _(ex, st, a, c):
    n = int(a[0].args[0])
    k0 = len(st.inputs)
    for k in range(n - 1):
        if ex.decide(st, t.bvar("ch%d_%d" % (k0, k))):
            st.inputs.append(("choose", t.num(k)))
            return t.num(k)
    st.inputs.append(("choose", t.num(n - 1)))
    return t.num(n - 1)


@model(P("boolean"))
def _(ex, st, a, c):
    b = t.bvar("b%d" % len(st.inputs))
    st.inputs.append(("bool", b))
    return b


@model(P("assume"))
def _(ex, st, a, c):
    ex.assume(st, ex.simp(st, a[0]))
    return Agg(0, ())


@model(P("native_assume"), P("observe"))
def _(ex, st, a, c):
    return Agg(0, ())


@model(P("symbolic"))
def _(ex, st, a, c):
    return TRUE


def lemma(ex, st, g):
    if g is FALSE:
        return
    for x in (g.args if g.op == "and" else (g,)):
        if x is not TRUE and x not in st.dec:
            st.pc.append(x)
            st.dec[x] = True
            st.dec[t.bnot(x)] = False


@model(P("check"))
def _(ex, st, a, c):
    ex.oblige(st, a[1].s, a[0])
    lemma(ex, st, a[0])
    return Agg(0, ())


def tol(a, b, sc):
    return t.scale(Fr(1, 500), t.add(t.absv(sc), t.absv(a), t.absv(b)))


def do_close(ex, st, x, y, sc, label):
    if isinstance(x, Sp) or isinstance(y, Sp):
        g = t.boolv(x is y)
        ex.oblige(st, label, g)
        return
    g = t.eq(x, y)
    r = None
    if not isinstance(sc, Sp):
        r = t.lt(tol(x, y, sc), t.absv(t.sub(x, y)))
    ex.oblige(st, label, g, r)
    lemma(ex, st, g)


@model(P("close"))
def _(ex, st, a, c):
    do_close(ex, st, a[0], a[1], ONE, a[2].s)
    return Agg(0, ())


@model(P("close_s"))
def _(ex, st, a, c):
    do_close(ex, st, a[0], a[1], a[2], a[3].s)
    return Agg(0, ())


def do_leq(ex, st, x, y, sc, label):
    if isinstance(x, Sp) or isinstance(y, Sp):
        ex.oblige(st, label, ex.fcmp("Le", x, y))
        return
    g = t.le(x, y)
    r = t.lt(tol(x, y, sc), t.sub(x, y)) if not isinstance(sc, Sp) else None
    ex.oblige(st, label, g, r)
    lemma(ex, st, g)


@model(P("leq"))
def _(ex, st, a, c):
    do_leq(ex, st, a[0], a[1], ONE, a[2].s)
    return Agg(0, ())


@model(P("leq_s"))
def _(ex, st, a, c):
    do_leq(ex, st, a[0], a[1], a[2], a[3].s)
    return Agg(0, ())


def elems(ex, st, p):
    """elements of a slice of concrete length"""
    v = ex.load(st, p.a, p.p)
    n = p.m[2] if p.m is not None and p.m[0] == "s" else ex.seqlen(v)
    s = p.m[1] if p.m is not None and p.m[0] == "s" else ZERO
    if n.op != "num" or s.op != "num":
        raise Unsupported("slice of symbolic length")
    return [ex.get(st, v, int(s.args[0]) + k) for k in range(int(n.args[0]))]


def ufargs(ex, st, p):
    out = []
    for x in elems(ex, st, p):
        if isinstance(x, Sp):
            out.append(t.var("special:" + x.n))
        else:
            out.append(x)
    return out


@model(P("uf"))
def _(ex, st, a, c):
    return t.ufn(a[0].s, ufargs(ex, st, a[1]))


@model(P("uf_nonneg"))
def _(ex, st, a, c):
    return t.ufn("+" + a[0].s, ufargs(ex, st, a[1]))


@model(P("uf_bool"))
def _(ex, st, a, c):
    return t.ufb(a[0].s, ufargs(ex, st, a[1]))


@model(P("uf_int"))
def _(ex, st, a, c):
    v = t.ufn(a[0].s, ufargs(ex, st, a[1]), True)
    ex.assume(st, t.band(t.le(a[2], v), t.le(v, a[3])))
    return v


@model(P("emit"))
def _(ex, st, a, c):
    ev = dict(st.events)
    ev[a[0].s] = ev.get(a[0].s, ()) + (tuple(elems(ex, st, a[1])),)
    st.events = ev
    return Agg(0, ())


@model(P("emitted"))
def _(ex, st, a, c):
    return t.num(len(st.events.get(a[0].s, ())))


@model(P("event"))
def _(ex, st, a, c):
    i, k = int(a[1].args[0]), int(a[2].args[0])
    return st.events[a[0].s][i][k]


@model(P("reset_trace"))
def _(ex, st, a, c):
    st.events = {}
    return Agg(0, ())


@model(P("stub"))
def _(ex, st, a, c):
    ta = c["f"]["targs"]
    real, spec = ex.tys[ta[0]]["inst"], ex.tys[ta[1]]["inst"]
    st.stubs = dict(st.stubs)
    st.stubs[real] = spec
    ex.stubs_set.add(real)
    return Agg(0, ())


@model(P("loop_contract"))
def _(ex, st, a, c):
    """loop_contract(f, n, havoc, invariant): the n-th loop of f is proved by its invariant"""
    ta = c["f"]["targs"]
    real, havoc, inv = [ex.tys[x]["inst"] for x in ta]
    n = int(a[1].args[0])
    st.loopc = dict(st.loopc)
    ex.loops_set = True
    st.loopc[real] = dict(st.loopc.get(real, {}))
    st.loopc[real][n] = (havoc, inv)
    ex.called.add(inv)
    return Agg(0, ())


@model(P("loop_contract_named"))
def _(ex, st, a, c):
    """the same for a closure, given by its path"""
    ta = c["f"]["targs"]
    havoc, inv = [ex.tys[x]["inst"] for x in ta]
    n = int(a[1].args[0])
    fs = [f["id"] for f in ex.fns if f.get("body") and f["name"].split("<")[0].rstrip(":").endswith(a[0].s) or f.get("body") and f["key"].endswith(a[0].s)]
    if not fs:
        raise Unsupported("loop contract: no function %s" % a[0].s)
    st.loopc = dict(st.loopc)
    ex.loops_set = True
    for real in fs:
        st.loopc[real] = dict(st.loopc.get(real, {}))
        st.loopc[real][n] = (havoc, inv)
    ex.called.add(inv)
    return Agg(0, ())


@model(P("invariant"))
def _(ex, st, a, c):
    g = a[0]
    mode = st.ghost.get("loop mode")
    if mode == "assume":
        ex.assume(st, ex.simp(st, g))
    else:
        ex.oblige(st, "loop invariant (%s): %s" % ("established" if mode == "entry" else "kept", a[1].s), g)
        lemma(ex, st, g)
    return Agg(0, ())


@model(P("linear"))
def _(ex, st, a, c):
    """which paths are possible is decided without the conditions that have products in them (fewer are excluded)"""
    st.ghost = dict(st.ghost)
    st.ghost["linear"] = True
    return Agg(0, ())


@model(P("proving"))
def _(ex, st, a, c):
    return t.boolv(st.ghost.get("loop mode") in ("entry", "kept"))


@model(P("decreases"))
def _(ex, st, a, c):
    mode = st.ghost.get("loop mode")
    key = "variant of %s" % (st.ghost.get("loop id"),)
    if mode == "assume":
        st.ghost[key] = a[0]
    elif mode == "kept":
        ex.oblige(st, "loop ends: its variant decreases", t.lt(a[0], st.ghost[key]))
    else:
        pass
    ex.oblige(st, "loop ends: its variant is bounded", t.le(ZERO, a[0])) if mode != "assume" else None
    return Agg(0, ())


@model(P("decreases_real"))
def _(ex, st, a, c):
    """a non-negative quantity that every iteration decreases by at least one"""
    mode = st.ghost.get("loop mode")
    key = "real variant of %s" % (st.ghost.get("loop id"),)
    if mode == "assume":
        st.ghost[key] = a[0]
    elif mode == "kept":
        ex.oblige(st, "loop ends: its variant decreases", t.le(t.add(a[0], ONE), st.ghost[key]))
    if mode != "assume":
        ex.oblige(st, "loop ends: its variant is bounded", t.le(ZERO, a[0]))
    return Agg(0, ())


@model(P("any_value"))
def _(ex, st, a, c):
    return fresh_of(ex, st, c["f"]["targs"][0])


def fresh_of(ex, st, ty):
    d = ex.tys[ty]
    k = d["k"]
    if k == "float":
        return newvar(ex, st, "real")
    if k in ("int", "uint"):
        lo, hi = ex.rng(ty)
        v = newvar(ex, st, "int", "nn!i" if lo == 0 else "i", True)
        ex.assume(st, t.band(t.le(t.num(lo), v), t.le(v, t.num(hi))))
        return v
    raise Unsupported("arbitrary value of " + d["s"])


@model(P("sym_vec"))
def _(ex, st, a, c):
    """sym_vec(n, closure): a Vec of length n whose i-th element is closure(i)"""
    n, clo = a
    fid = closure_body(ex, c["f"]["targs"][-1])
    ca = ex.alloc(st, clo)
    memo = {}

    def base(st, i):
        k = ("element", ca, i)
        v = st.ghost.get(k)
        if v is None:
            v = ex.call_sync(st, fid, [Ptr(ca), i])
            st.ghost = dict(st.ghost)
            st.ghost[k] = v
        return v
    return SymSeq(n, base)


@pattern(r"^(pt::)?ptv::(iter_from|iter_mut_from|into_iter_from)$")
def _(ex, st, a, c):
    it = ex.load(st, a[0].a, a[0].p)
    if not (isinstance(it, Iter) and it.k in ("slice", "own")):
        raise Unsupported("iter_from of %r" % (it,))
    al, path, i, e = it.d
    ex.assume(st, t.le(a[1], t.sub(e, i)))
    return Iter(it.k, al, path, t.add(i, a[1]), e)


def closure_body(ex, ty):
    d = ex.tys[ty]
    n = d["n"]
    for f in ex.fns:
        if f["name"] == n and f.get("body"):
            return f["id"]
    if d.get("inst") is not None:
        return d["inst"]
    raise Unsupported("closure " + n)


# ------------------------------------------------------------------ floats
def F(n):
    return ["core::f32::<impl f32>::" + n, "std::f32::<impl f32>::" + n, "core::f64::<impl f64>::" + n, "std::f64::<impl f64>::" + n,
            "f32::" + n, "f64::" + n, "core::num::<impl f32>::" + n]


def fmodel(*ns):
    return model(*[x for n in ns for x in F(n)])


@fmodel("abs")
def _(ex, st, a, c):
    x = a[0]
    return t.absv(x) if isinstance(x, T) else NAN if x is NAN else INF


@fmodel("sqrt")
def _(ex, st, a, c):
    x = a[0]
    if isinstance(x, Sp):
        return INF if x is INF else NAN
    if not t.nonneg(x) and ex.decide(st, t.lt(x, ZERO)):
        return NAN
    if x.op in ("add", "var", "ite") and st.dec.get(t.eq(x, ONE)) is True:
        return ONE
    return t.fn("sqrt", x)


@fmodel("max")
def _(ex, st, a, c):
    x, y = a
    if isinstance(x, T) and isinstance(y, T):
        return t.tmax(x, y)
    if x is NAN:
        return y
    if y is NAN:
        return x
    return INF if INF in (x, y) else (y if x is NINF else x)


@fmodel("min")
def _(ex, st, a, c):
    x, y = a
    if isinstance(x, T) and isinstance(y, T):
        return t.tmin(x, y)
    if x is NAN:
        return y
    if y is NAN:
        return x
    return NINF if NINF in (x, y) else (y if x is INF else x)


@fmodel("clamp")
def _(ex, st, a, c):
    x, lo, hi = a
    if x is NAN:
        return NAN
    if x is INF:
        return hi
    if x is NINF:
        return lo
    return t.tmin(t.tmax(x, lo), hi)


@fmodel("is_nan")
def _(ex, st, a, c):
    return t.boolv(a[0] is NAN)


@fmodel("is_infinite")
def _(ex, st, a, c):
    return t.boolv(a[0] is INF or a[0] is NINF)


@fmodel("is_finite")
def _(ex, st, a, c):
    return t.boolv(isinstance(a[0], T))


@fmodel("is_sign_negative")
def _(ex, st, a, c):
    x = a[0]
    if isinstance(x, Sp):
        return t.boolv(x is NINF)
    if ex.decide(st, t.eq(x, ZERO)):
        return t.boolv(ex.zero_sign(st, x) < 0)
    return t.lt(x, ZERO)


@fmodel("is_sign_positive")
def _(ex, st, a, c):
    x = a[0]
    if isinstance(x, Sp):
        return t.boolv(x is INF)
    if ex.decide(st, t.eq(x, ZERO)):
        return t.boolv(ex.zero_sign(st, x) > 0)
    return t.lt(ZERO, x)


@fmodel("signum")
def _(ex, st, a, c):
    x = a[0]
    if x is NAN:
        return NAN
    if isinstance(x, Sp):
        return ONE if x is INF else t.num(-1)
    if ex.decide(st, t.eq(x, ZERO)):
        return t.num(ex.zero_sign(st, x))
    return t.ite(t.lt(ZERO, x), ONE, t.num(-1))


@fmodel("floor")
def _(ex, st, a, c):
    return a[0] if isinstance(a[0], Sp) else t.floor(a[0])


@fmodel("ceil")
def _(ex, st, a, c):
    return a[0] if isinstance(a[0], Sp) else t.ceil(a[0])


@fmodel("trunc")
def _(ex, st, a, c):
    return a[0] if isinstance(a[0], Sp) else t.trunc(a[0])


@fmodel("round")
def _(ex, st, a, c):
    x = a[0]
    if isinstance(x, Sp):
        return x
    h = t.num(Fr(1, 2))
    if t.nonneg(x) or ex.decide(st, t.le(ZERO, x)):
        return t.floor(t.add(x, h))
    return t.neg(t.floor(t.add(t.neg(x), h)))


@fmodel("fract")
def _(ex, st, a, c):
    return t.sub(a[0], t.trunc(a[0]))


@fmodel("powi")
def _(ex, st, a, c):
    x, n = a
    n = int(n.args[0])
    if isinstance(x, Sp):
        if n == 0:
            return ONE
        r = x
        for _ in range(abs(n) - 1):
            r = ex.fmul(st, r, x)
        return r if n > 0 else ex.fdiv(st, ONE, r)
    r = t.mul(*([x] * abs(n))) if n else ONE
    return r if n >= 0 else ex.fdiv(st, ONE, r)


@fmodel("powf")
def _(ex, st, a, c):
    x, y = a
    if isinstance(x, Sp) and isinstance(y, T) and y.op == "num" and y.args[0] > 0 and not y.isint:
        return NAN if x is NAN else INF
    if isinstance(x, Sp) or isinstance(y, Sp):
        raise Unsupported("powf of non-finite")
    if y.op == "num" and y.isint and 0 <= y.args[0] < 8:
        return t.mul(*([x] * int(y.args[0]))) if y.args[0] else ONE
    if ex.decide(st, t.lt(x, ZERO)):
        return NAN
    if ex.decide(st, t.eq(x, ZERO)):
        return ZERO if ex.decide(st, t.lt(ZERO, y)) else (ONE if ex.decide(st, t.eq(y, ZERO)) else INF)
    return t.fn("pow", x, y)


@fmodel("recip")
def _(ex, st, a, c):
    return ex.fdiv(st, ONE, a[0])


@fmodel("mul_add")
def _(ex, st, a, c):
    return ex.fadd(st, ex.fmul(st, a[0], a[1]), a[2])


@fmodel("hypot")
def _(ex, st, a, c):
    return t.fn("sqrt", t.add(t.mul(a[0], a[0]), t.mul(a[1], a[1])))


def fun1(n):
    @fmodel(n)
    def _(ex, st, a, c):
        x = a[0]
        if x is NAN:
            return NAN
        if isinstance(x, Sp):
            if n == "exp":
                return INF if x is INF else ZERO
            if n == "atan":
                return t.scale(Fr(1 if x is INF else -1, 2), t.PI)
            return NAN
        if n in ("acos", "asin"):
            if ex.decide(st, t.bor(t.lt(x, t.num(-1)), t.lt(ONE, x))):
                return NAN
        if n == "tan":
            return ex.fdiv(st, t.fn("sin", x), t.fn("cos", x))
        return t.fn(n, x)


for _n in ("sin", "cos", "tan", "exp", "acos", "asin", "atan"):
    fun1(_n)


@fmodel("ln")
def _(ex, st, a, c):
    return ln(ex, st, a[0])


def ln(ex, st, x):
    if isinstance(x, Sp):
        return INF if x is INF else NAN
    if ex.decide(st, t.lt(x, ZERO)):
        return NAN
    if ex.decide(st, t.eq(x, ZERO)):
        return NINF
    return t.fn("ln", x)


@fmodel("log")
def _(ex, st, a, c):
    return ex.fdiv(st, ln(ex, st, a[0]), ln(ex, st, a[1]))


@fmodel("sin_cos")
def _(ex, st, a, c):
    return Agg(0, (t.fn("sin", a[0]), t.fn("cos", a[0])))


@fmodel("atan2")
def _(ex, st, a, c):
    y, x = a
    if isinstance(x, Sp) or isinstance(y, Sp):
        if x is NAN or y is NAN:
            return NAN
        raise Unsupported("atan2 of infinities")
    if y is ZERO and x.op == "num":
        return ZERO if x.args[0] >= 0 else t.PI
    return t.fn("atan2", y, x)


@fmodel("to_radians")
def _(ex, st, a, c):
    x = a[0]
    return x if isinstance(x, Sp) else t.div(t.mul(x, t.PI), t.num(180))


@fmodel("to_degrees")
def _(ex, st, a, c):
    x = a[0]
    return x if isinstance(x, Sp) else t.div(t.mul(x, t.num(180)), t.PI)


@pattern(r"^<(f32|f64|[iu](8|16|32|64|128|size)) as std::ops::(Add|Sub|Mul|Div|Neg|Rem)>::\w+$")
def _(ex, st, a, c):
    m = c["f"]["key"].rsplit("::", 1)[1]
    ty = c["atys"][0]
    if m == "neg":
        return ex.fneg(a[0]) if ex.tys[ty]["k"] == "float" else t.neg(a[0])
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[m]
    if ex.tys[ty]["k"] != "float" and op in ("Add", "Sub", "Mul"):
        r = ex.binop(st, op + "WithOverflow", a[0], a[1], ty)
        v, ov = r.f
        g = t.bnot(ov)
        if g is not TRUE:
            ex.oblige(st, "no panic: arithmetic overflow", g, None, "panic")
            ex.assume(st, g)
        return v
    return ex.binop(st, op, a[0], a[1], ty)


@pattern(r"^<(f32|f64|[iu](8|16|32|64|128|size)) as std::ops::(Add|Sub|Mul|Div)Assign>::\w+$")
def _(ex, st, a, c):
    m = c["f"]["key"].rsplit("::", 1)[1]
    ty = ex.tys[c["atys"][0]]["e"]
    op = {"add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "div_assign": "Div"}[m]
    p = a[0]
    x = ex.load(st, p.a, p.p)
    if ex.tys[ty]["k"] != "float" and op != "Div":
        v, ov = ex.binop(st, op + "WithOverflow", x, a[1], ty).f
        g = t.bnot(ov)
        if g is not TRUE:
            ex.oblige(st, "no panic: arithmetic overflow", g, None, "panic")
            ex.assume(st, g)
    else:
        v = ex.binop(st, op, x, a[1], ty)
    ex.store(st, p.a, p.p, v)


# references to numbers: &a - &b
@pattern(r"^<&?(mut )?(f32|f64|[iu](8|16|32|64|128|size)) as std::ops::(Add|Sub|Mul|Div|Neg|Rem)>::\w+$")
def _(ex, st, a, c):
    m = c["f"]["key"].rsplit("::", 1)[1]
    b = []
    ty = None
    for x, y in zip(a, c["atys"]):
        d = ex.tys[y]
        if d["k"] == "ref":
            b.append(ex.load(st, x.a, x.p))
            ty = d["e"]
        else:
            b.append(x)
            ty = y
    if m == "neg":
        return ex.fneg(b[0])
    return ex.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[m], b[0], b[1], ty)


# ------------------------------------------------------------------ integers
@pattern(r"^core::num::<impl [iu]\w+>::(abs|min|max|pow|wrapping_\w+|saturating_\w+|checked_\w+|rem_euclid|div_euclid|unsigned_abs|signum|is_power_of_two|count_ones|abs_diff)$")
def _(ex, st, a, c):
    m = c["f"]["key"].rsplit("::", 1)[1]
    ty = c["atys"][0]
    lo, hi = ex.rng(ty)
    if m == "abs":
        g = t.bnot(t.eq(a[0], t.num(lo)))
        if g is not TRUE:
            ex.oblige(st, "no panic: abs overflow", g, None, "panic")
            ex.assume(st, g)
        return t.absv(a[0])
    if m == "unsigned_abs":
        return t.absv(a[0])
    if m == "abs_diff":
        return t.absv(t.sub(a[0], a[1]))
    if m == "rem_euclid":
        return t.imod(a[0], a[1]) if ex.decide(st, t.lt(ZERO, a[1])) else t.imod(a[0], t.neg(a[1]))
    if m == "div_euclid":
        if ex.decide(st, t.lt(ZERO, a[1])):
            return t.idiv(a[0], a[1])
        return t.neg(t.idiv(a[0], t.neg(a[1])))
    if m == "signum":
        return t.ite(t.lt(a[0], ZERO), t.num(-1), t.ite(t.lt(ZERO, a[0]), ONE, ZERO))
    if m == "pow":
        n = int(a[1].args[0])
        v = t.mul(*([a[0]] * n)) if n else ONE
        g = t.band(t.le(t.num(lo), v), t.le(v, t.num(hi)))
        if g is not TRUE:
            ex.oblige(st, "no panic: pow overflow", g, None, "panic")
            ex.assume(st, g)
        return v
    pre, _, op = m.partition("_")
    f = {"add": t.add, "sub": t.sub, "mul": t.mul}.get(op)
    if pre in ("wrapping", "saturating", "checked") and f:
        v = f(a[0], a[1])
        if pre == "wrapping":
            return ex.wrap(st, v, ty)
        if pre == "saturating":
            return t.tmin(t.tmax(v, t.num(lo)), t.num(hi))
        if ex.decide(st, t.band(t.le(t.num(lo), v), t.le(v, t.num(hi)))):
            return some(v)
        return NONE
    if m in ("wrapping_div", "checked_div", "checked_rem", "wrapping_rem"):
        v = None
        if pre == "checked" and ex.decide(st, t.eq(a[1], ZERO)):
            return NONE
        v = ex.binop(st, "Div" if op == "div" else "Rem", a[0], a[1], ty)
        return some(v) if pre == "checked" else v
    if m == "wrapping_neg":
        return ex.wrap(st, t.neg(a[0]), ty)
    raise Unsupported(c["f"]["name"])


@pattern(r"^(std|core)::intrinsics::(integer_min|integer_max|min|max)$")
def _(ex, st, a, c):
    return (t.tmin if c["f"]["key"].endswith("min") else t.tmax)(a[0], a[1])


@model("std::cmp::min", "std::cmp::max", "core::cmp::min", "core::cmp::max")
def _(ex, st, a, c):
    if not (isinstance(a[0], T) and isinstance(a[1], T)):
        raise Unsupported("cmp::min on aggregates")
    return (t.tmin if c["f"]["key"].endswith("min") else t.tmax)(a[0], a[1])


@pattern(r"^std::cmp::impls::<impl std::cmp::Ord for [iu]\w+>::(min|max)$|^<[iu]\w+ as std::cmp::Ord>::(min|max)$|^std::cmp::Ord::(min|max)$")
def _(ex, st, a, c):
    if not (isinstance(a[0], T) and isinstance(a[1], T)):
        raise Unsupported("Ord::min on aggregates")
    return (t.tmin if c["f"]["key"].endswith("min") else t.tmax)(a[0], a[1])


def deref(ex, st, x):
    while isinstance(x, Ptr):
        x = ex.load(st, x.a, x.p)
    return x


@pattern(r"cmp::impls::<impl std::cmp::(Partial)?(Ord|Eq) for &?(f32|f64|bool|char|[iu]\w+)>::(lt|le|gt|ge|eq|ne)$")
def _(ex, st, a, c):
    x, y = deref(ex, st, a[0]), deref(ex, st, a[1])
    op = c["f"]["key"].rsplit("::", 1)[1].capitalize()
    if isinstance(x, T) and x.b:
        r = t.biff(x, y)
        return r if op == "Eq" else t.bnot(r)
    return ex.fcmp(op, x, y)


@pattern(r"cmp::impls::<impl std::cmp::(PartialOrd|Ord) for &?(f32|f64|char|[iu]\w+)>::(partial_cmp|cmp)$|(f32|f64)>::total_cmp$")
def _(ex, st, a, c):
    x, y = deref(ex, st, a[0]), deref(ex, st, a[1])
    part = "partial_cmp" in c["f"]["key"]
    if x is NAN or y is NAN:
        if part:
            return NONE
        raise Unsupported("total_cmp on NaN")
    if ex.decide(st, ex.fcmp("Lt", x, y)):
        r = Agg(0, ())
    elif ex.decide(st, ex.fcmp("Eq", x, y)):
        r = Agg(1, ())
    else:
        r = Agg(2, ())
    return some(r) if part else r


# ------------------------------------------------------------------ clone, default, deref
@pattern(r"clone::impls::<impl std::clone::Clone for .*>::clone$|<(std::sync::Arc|std::rc::Rc) as std::clone::Clone>::clone$|<std::vec::Vec as std::clone::Clone>::clone$|<std::boxed::Box as std::clone::Clone>::clone$|SpecArrayClone>::clone$|<\(.*\) as std::clone::Clone>::clone$|<\[\] as std::clone::Clone>|std::array::<impl std::clone::Clone for .*>::clone$|<&.* as std::clone::Clone>::clone$|<std::ops::Range as std::clone::Clone>::clone$|<std::slice::Iter as std::clone::Clone>::clone$")
def _(ex, st, a, c):
    p = a[0]
    key = c["f"]["key"]
    if "SpecArrayClone" in key and p.m is not None:
        v = ex.load(st, p.a, p.p)
        return v
    v = ex.load(st, p.a, p.p)
    if "sync::Arc" in key or "rc::Rc" in key:
        st.ghost[("shared", v.a)] = ONE
    if "boxed::Box" in key and isinstance(v, Ptr):
        inner = ex.load(st, v.a, v.p)
        return Ptr(ex.alloc(st, inner), (), v.m)
    return v


@pattern(r"<std::(sync::Arc|rc::Rc|boxed::Box) as std::(ops::Deref|convert::AsRef|borrow::Borrow|ops::DerefMut)>::\w+$")
def _(ex, st, a, c):
    p = a[0]
    v = ex.load(st, p.a, p.p)
    return v


@pattern(r"<std::vec::Vec as std::ops::(Deref|DerefMut)>::\w+$|std::vec::Vec::(as_slice|as_mut_slice)$|<std::vec::Vec as std::convert::AsRef>::as_ref$|<std::vec::Vec as std::borrow::Borrow>::borrow$")
def _(ex, st, a, c):
    p = a[0]
    return Ptr(p.a, p.p, ("s", ZERO, ex.seqlen(ex.load(st, p.a, p.p))))


@pattern(r"(sync::Arc|rc::Rc)::get_mut$")
def _(ex, st, a, c):
    v = ex.load(st, a[0].a, a[0].p)
    if ("shared", v.a) in st.ghost:
        raise Unsupported("Arc::get_mut of something that was cloned")
    return some(v)


@pattern(r"(sync::Arc|rc::Rc)::ptr_eq$")
def _(ex, st, a, c):
    x, y = ex.load(st, a[0].a, a[0].p), ex.load(st, a[1].a, a[1].p)
    return TRUE if (x.a, x.p) == (y.a, y.p) else FALSE


@pattern(r"(sync::Arc|rc::Rc|boxed::Box)::(new|pin)$")
def _(ex, st, a, c):
    return Ptr(ex.alloc(st, a[0]))


@pattern(r"^core::default::impls|std::default::Default for (f32|f64|[iu]\w+)>::default|<(f32|f64|[iu]\w+) as std::default::Default>::default$")
def _(ex, st, a, c):
    return ZERO


@pattern(r"<bool as std::default::Default>::default$")
def _(ex, st, a, c):
    return FALSE


def default_of(ex, ty):
    d = ex.tys[ty]
    k = d["k"]
    if k in ("float", "int", "uint", "char"):
        return ZERO
    if k == "bool":
        return FALSE
    if k == "tuple":
        return Agg(0, [default_of(ex, x) for x in d["f"]])
    if k == "array":
        return tuple(default_of(ex, d["e"]) for _ in range(d["n"]))
    if k == "adt" and d["n"] == "std::option::Option":
        return NONE
    if k == "adt" and d["n"] == "std::vec::Vec":
        return Seq(())
    if k == "adt" and d["n"].startswith("pt::"):
        for f in ex.fns:
            if f["key"] == "<%s as std::default::Default>::default" % d["n"] and f.get("body"):
                return ("call", f["id"])
    raise Unsupported("default of " + d["s"])


def resolve_default(ex, st, v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "call":
        return ex.call_sync(st, v[1], [])
    if isinstance(v, Agg):
        return Agg(v.v, [resolve_default(ex, st, x) for x in v.f])
    if isinstance(v, tuple):
        return tuple(resolve_default(ex, st, x) for x in v)
    return v


@pattern(r"tuple::<impl std::default::Default for .*>::default$|array::<impl std::default::Default for .*>::default$")
def _(ex, st, a, c):
    return resolve_default(ex, st, default_of(ex, c["rty"]))


@pattern(r"array::equality::<impl std::cmp::PartialEq.* for \[.*>::(eq|ne)$|SpecArrayEq>::spec_eq$|SpecArrayEq::spec_eq$|slice::cmp::.*::(eq|ne|equal)$|<std::vec::Vec as std::cmp::PartialEq>::(eq|ne)$")
def _(ex, st, a, c):
    x, y = ex.load(st, a[0].a, a[0].p), ex.load(st, a[1].a, a[1].p)
    r = veq(ex, x, y)
    return t.bnot(r) if c["f"]["key"].endswith("ne") else r


def veq(ex, x, y):
    if isinstance(x, (T, Sp)):
        if isinstance(x, T) and x.b:
            return t.biff(x, y)
        return ex.fcmp("Eq", x, y)
    if isinstance(x, Seq):
        x, y = x.e, y.e
    if isinstance(x, tuple):
        if len(x) != len(y):
            return FALSE
        return t.band(*[veq(ex, p, q) for p, q in zip(x, y)])
    if isinstance(x, Agg):
        if x.v != y.v:
            return FALSE
        return t.band(*[veq(ex, p, q) for p, q in zip(x.f, y.f)])
    if isinstance(x, Str):
        return t.boolv(x.s == y.s)
    raise Unsupported("equality of %r" % (x,))


# ------------------------------------------------------------------ Vec, slices
@pattern(r"std::vec::Vec::(new|with_capacity)$|<std::vec::Vec as std::default::Default>::default$")
def _(ex, st, a, c):
    return Seq(())


@pattern(r"std::vec::Vec::(reserve|shrink_to_fit|reserve_exact)$")
def _(ex, st, a, c):
    return Agg(0, ())


def vec(ex, st, p):
    v = ex.load(st, p.a, p.p)
    if isinstance(v, Ptr):
        return vec(ex, st, v)
    return v


@model("std::vec::Vec::push")
def _(ex, st, a, c):
    p, x = a
    v = ex.load(st, p.a, p.p)
    if isinstance(v, Seq):
        ex.store(st, p.a, p.p, Seq(v.e + (x,)))
    elif isinstance(v, SymSeq):
        n1 = t.add(v.n, ONE)
        ex.store(st, p.a, p.p, SymSeq(n1, v.base, v.up + ((v.n, x),)))
    else:
        raise Unsupported("push on %r" % (v,))


@model("std::vec::Vec::pop")
def _(ex, st, a, c):
    p = a[0]
    v = ex.load(st, p.a, p.p)
    if isinstance(v, Seq):
        if not v.e:
            return NONE
        ex.store(st, p.a, p.p, Seq(v.e[:-1]))
        return some(v.e[-1])
    if ex.decide(st, t.eq(v.n, ZERO)):
        return NONE
    n1 = t.sub(v.n, ONE)
    x = ex.symget(st, v, n1)
    ex.store(st, p.a, p.p, SymSeq(n1, v.base, v.up))
    return some(x)


@pattern(r"std::vec::Vec::(len|is_empty)$|^core::slice::<impl \[\]>::(len|is_empty)$")
def _(ex, st, a, c):
    p = a[0]
    n = p.m[2] if p.m is not None and p.m[0] == "s" else ex.seqlen(vec(ex, st, p))
    return t.eq(n, ZERO) if c["f"]["key"].endswith("is_empty") else n


@model("std::vec::Vec::clear")
def _(ex, st, a, c):
    ex.store(st, a[0].a, a[0].p, Seq(()))


@model("std::vec::Vec::truncate")
def _(ex, st, a, c):
    v = ex.load(st, a[0].a, a[0].p)
    n = a[1]
    if isinstance(v, Seq) and n.op == "num":
        ex.store(st, a[0].a, a[0].p, Seq(v.e[:int(n.args[0])]))
        return
    raise Unsupported("truncate")


@pattern(r"std::vec::Vec::(into_boxed_slice)$|<std::boxed::Box as std::convert::From>::from$|std::slice::<impl \[\]>::into_boxed_slice$")
def _(ex, st, a, c):
    v = a[0]
    if not isinstance(v, (Seq, SymSeq, tuple)):
        raise Unsupported("into_boxed_slice of %r" % (v,))
    return Ptr(ex.alloc(st, v), (), ("s", ZERO, ex.seqlen(v)))


@pattern(r"std::slice::<impl \[\]>::(into_vec|to_vec)$|<\[\]>::(into_vec|to_vec)$|<impl \[\]>::(to_vec|into_vec)$|std::borrow::ToOwned for \[\]>::to_owned$")
def _(ex, st, a, c):
    p = a[0]
    v = ex.load(st, p.a, p.p)
    if isinstance(v, Seq) and (p.m is None or p.m[1] is ZERO):
        return v
    if isinstance(v, SymSeq):
        return v
    return Seq(elems(ex, st, p))


@pattern(r"(^|::)(from_elem|SpecFromElem::from_elem)$|std::vec::from_elem$")
def _(ex, st, a, c):
    x, n = a[0], a[1]
    if n.op == "num":
        return Seq((x,) * int(n.args[0]))
    return SymSeq(n, lambda s, i: x)


@pattern(r"std::vec::Vec::(extend_from_slice)$")
def _(ex, st, a, c):
    v = ex.load(st, a[0].a, a[0].p)
    if not isinstance(v, Seq):
        raise Unsupported("extend")
    ex.store(st, a[0].a, a[0].p, Seq(v.e + tuple(elems(ex, st, a[1]))))


@pattern(r"std::vec::Vec::(append)$")
def _(ex, st, a, c):
    v, w = ex.load(st, a[0].a, a[0].p), ex.load(st, a[1].a, a[1].p)
    if not isinstance(v, Seq) or not isinstance(w, Seq):
        raise Unsupported("append")
    ex.store(st, a[0].a, a[0].p, Seq(v.e + w.e))
    ex.store(st, a[1].a, a[1].p, Seq(()))


@pattern(r"std::vec::Vec::(swap_remove|remove|insert)$|std::vec::Vec::(dedup|retain|drain|sort).*")
def _(ex, st, a, c):
    m = c["f"]["key"].rsplit("::", 1)[1]
    v = ex.load(st, a[0].a, a[0].p)
    if isinstance(v, Seq) and m in ("remove", "insert", "swap_remove") and a[1].op == "num":
        e, i = list(v.e), int(a[1].args[0])
        if m == "insert":
            e.insert(i, a[2])
            ex.store(st, a[0].a, a[0].p, Seq(e))
            return
        x = e[i]
        if m == "remove":
            del e[i]
        else:
            e[i] = e[-1]
            e.pop()
        ex.store(st, a[0].a, a[0].p, Seq(e))
        return x
    raise Unsupported(c["f"]["name"])


def bound(ex, st, g, what):
    g = ex.simp(st, g)
    if g is TRUE or st.dec.get(g) is True:
        return
    ex.oblige(st, "no panic: " + what, g, None, "panic")
    ex.assume(st, g)


def as_slice(ex, st, p):
    """(alloc, path, start, len)"""
    if p.m is not None and p.m[0] == "s":
        return p.a, p.p, p.m[1], p.m[2]
    v = ex.load(st, p.a, p.p)
    if isinstance(v, Ptr):
        return as_slice(ex, st, v)
    return p.a, p.p, ZERO, ex.seqlen(v)


def elem_ptr(a, path, i):
    return Ptr(a, path + (int(i.args[0]) if i.op == "num" else i,))


@pattern(r"std::ops::(Index|IndexMut)>::index(_mut)?$|<impl std::ops::(Index|IndexMut) for \[\]>::index(_mut)?$|SliceIndex>::index(_mut)?$")
def _(ex, st, a, c):
    p, i = a
    if not isinstance(p, Ptr):
        p, i = i, p
    al, path, s, n = as_slice(ex, st, p)
    if isinstance(i, T):
        bound(ex, st, t.lt(i, n) if t.nonneg(i) else t.band(t.le(ZERO, i), t.lt(i, n)), "index out of bounds")
        return elem_ptr(al, path, t.add(s, i))
    tys = [ex.tys[y]["s"] for y in c["atys"]]
    rt = [x for x in tys if "Range" in x][0]
    if "RangeFull" in rt:
        return Ptr(al, path, ("s", s, n))
    if "RangeFrom" in rt:
        lo, hi = i.f[0], n
    elif "RangeToInclusive" in rt:
        lo, hi = ZERO, t.add(i.f[0], ONE)
    elif "RangeTo" in rt:
        lo, hi = ZERO, i.f[0]
    elif "RangeInclusive" in rt:
        lo, hi = i.f[0], t.add(i.f[1], ONE)
    else:
        lo, hi = i.f[0], i.f[1]
    bound(ex, st, t.band(t.le(lo, hi), t.le(hi, n)), "slice range out of bounds")
    return Ptr(al, path, ("s", t.add(s, lo), t.sub(hi, lo)))


@pattern(r"^core::slice::<impl \[\]>::(get|get_mut)$")
def _(ex, st, a, c):
    al, path, s, n = as_slice(ex, st, a[0])
    if not isinstance(a[1], T):
        raise Unsupported("get range")
    if ex.decide(st, t.lt(a[1], n)):
        return some(elem_ptr(al, path, t.add(s, a[1])))
    return NONE


@pattern(r"^core::slice::<impl \[\]>::(first|last|first_mut|last_mut)$")
def _(ex, st, a, c):
    al, path, s, n = as_slice(ex, st, a[0])
    if ex.decide(st, t.eq(n, ZERO)):
        return NONE
    i = s if "first" in c["f"]["key"] else t.add(s, n, t.num(-1))
    return some(elem_ptr(al, path, i))


@pattern(r"^core::slice::<impl \[\]>::swap$")
def _(ex, st, a, c):
    al, path, s, n = as_slice(ex, st, a[0])
    p, q = elem_ptr(al, path, t.add(s, a[1])), elem_ptr(al, path, t.add(s, a[2]))
    x, y = ex.load(st, p.a, p.p), ex.load(st, q.a, q.p)
    ex.store(st, p.a, p.p, y)
    ex.store(st, q.a, q.p, x)


@pattern(r"^core::slice::<impl \[\]>::(split_first|split_last)$")
def _(ex, st, a, c):
    al, path, s, n = as_slice(ex, st, a[0])
    if ex.decide(st, t.eq(n, ZERO)):
        return NONE
    if "first" in c["f"]["key"]:
        return some(Agg(0, (elem_ptr(al, path, s), Ptr(al, path, ("s", t.add(s, ONE), t.sub(n, ONE))))))
    return some(Agg(0, (elem_ptr(al, path, t.add(s, n, t.num(-1))), Ptr(al, path, ("s", s, t.sub(n, ONE))))))


@pattern(r"^core::slice::<impl \[\]>::reverse$")
def _(ex, st, a, c):
    al, path, s, n = as_slice(ex, st, a[0])
    e = elems(ex, st, Ptr(al, path, ("s", s, n)))
    for k, x in enumerate(reversed(e)):
        ex.store(st, al, path + (int(s.args[0]) + k,), x)


@pattern(r"slice::<impl \[\]>::(sort_by|sort_unstable_by|sort|sort_unstable|sort_by_key|sort_unstable_by_key)$")
def _(ex, st, a, c):
    al, path, s, n = as_slice(ex, st, a[0])
    m = c["f"]["key"].rsplit("::", 1)[1]
    if n.op != "num":
        return symbolic_sort(ex, st, al, path, s, n, a, c, m)
    e = elems(ex, st, Ptr(al, path, ("s", s, n)))
    if "by" not in m:
        cmpf = lambda x, y: ex.decide(st, ex.fcmp("Lt", x, y))
        out = insertion(e, cmpf)
    elif "key" in m:
        raise Unsupported(m)
    else:
        fid = closure_body(ex, c["f"]["targs"][-1])
        ca = ex.alloc(st, a[1])

        def less(x, y):
            px, py = ex.alloc(st, x), ex.alloc(st, y)
            r = ex.call_sync(st, fid, [Ptr(ca), Ptr(px), Ptr(py)])
            return r.v == 0
        out = insertion(e, less)
    for k, x in enumerate(out):
        ex.store(st, al, path + (int(s.args[0]) + k,), x)


def symbolic_sort(ex, st, al, path, s, n, a, c, m):
    """sorting a vector of any length: a permutation of it, ordered by the comparator (see sorted_place, sorted_pair)"""
    v = ex.load(st, al, path)
    if m not in ("sort_by", "sort_unstable_by") or not isinstance(v, SymSeq) or s is not ZERO or v.n is not n:
        raise Unsupported("sorting a part of a vector")
    fid = closure_body(ex, c["f"]["targs"][-1])
    ca = ex.alloc(st, a[1])
    k = len(st.ghost.get("sorts", ()))
    tag = "%d!%d" % (k, st.nfresh)

    def base(st, i):
        j = t.ufn("sorted!" + tag, [i], True)
        ex.assume(st, t.band(t.le(ZERO, j), t.lt(j, n)))
        return ex.get(st, v, j)
    w = SymSeq(n, base)
    ex.store(st, al, path, w)
    st.ghost = dict(st.ghost)
    st.ghost["sorts"] = st.ghost.get("sorts", ()) + ((tag, fid, ca, w),)


def last_sort(st):
    x = st.ghost.get("sorts", ())
    if not x:
        raise Unsupported("nothing was sorted")
    return x[-1]


@model(P("sorted_place"))
def _(ex, st, a, c):
    tag, fid, ca, w = last_sort(st)
    p = t.ufn("place!" + tag, [a[0]], True)
    ex.assume(st, t.bor(t.le(w.n, a[0]), t.band(t.le(ZERO, p), t.lt(p, w.n), t.eq(t.ufn("sorted!" + tag, [p], True), a[0]))))
    return p


@model(P("sorted_pair"))
def _(ex, st, a, c):
    tag, fid, ca, w = last_sort(st)
    i, j = a
    if not ex.decide(st, t.band(t.lt(i, j), t.lt(j, w.n))):
        return Agg(0, ())
    x, y = ex.alloc(st, ex.get(st, w, i)), ex.alloc(st, ex.get(st, w, j))
    r = ex.call_sync(st, fid, [Ptr(ca), Ptr(x), Ptr(y)])
    # not Greater
    if r.v == 2:
        ex.assume(st, FALSE)
    return Agg(0, ())


@model(P("again"))
def _(ex, st, a, c):
    return ex.load(st, a[0].a, a[0].p)


@model(P("grow"))
def _(ex, st, a, c):
    v = ex.load(st, a[0].a, a[0].p)
    if not isinstance(v, SymSeq):
        raise Unsupported("grow of %r" % (v,))
    ex.store(st, a[0].a, a[0].p, SymSeq(t.add(v.n, a[1]), v.base, v.up))
    return Agg(0, ())


def insertion(e, less):
    """stable insertion sort (any correct stable sort computes the same result for a total preorder)"""
    out = []
    for x in e:
        k = len(out)
        while k > 0 and less(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    return out


@pattern(r"^core::slice::<impl \[\]>::contains$")
def _(ex, st, a, c):
    x = deref(ex, st, a[1])
    return t.bor(*[veq(ex, x, y) for y in elems(ex, st, a[0])])


@pattern(r"slice::<impl \[\]>::concat$|slice::<impl \[\]>::chunks\w*$|slice::<impl \[\]>::windows$")
def _(ex, st, a, c):
    raise Unsupported(c["f"]["name"])


# iterators over slices: Iter("slice", base pointer pieces, index, end)
@pattern(r"^core::slice::<impl \[\]>::(iter|iter_mut)$|<&(mut )?std::vec::Vec as std::iter::IntoIterator>::into_iter$|<impl std::iter::IntoIterator for &.*\[.?\]>::into_iter$|<&(mut )?\[.?\] as std::iter::IntoIterator>::into_iter$|<&(mut )?std::boxed::Box as std::iter::IntoIterator>::into_iter$")
def _(ex, st, a, c):
    al, path, s, n = as_slice(ex, st, a[0])
    return Iter("slice", al, path, s, t.add(s, n))


@pattern(r"<std::vec::Vec as std::iter::IntoIterator>::into_iter$|std::array::.*IntoIterator.*for \[.?.?.?\]>::into_iter$|<\[;?\] as std::iter::IntoIterator>::into_iter$")
def _(ex, st, a, c):
    v = a[0]
    if isinstance(v, Ptr):
        al, path, s, n = as_slice(ex, st, v)
        return Iter("own", al, path, s, t.add(s, n))
    return Iter("own", ex.alloc(st, v), (), ZERO, ex.seqlen(v))


@pattern(r"^<(std|core)::.* as std::iter::IntoIterator>::into_iter$|^<pt::.* as std::iter::IntoIterator>::into_iter$|^<I as std::iter::IntoIterator>::into_iter$")
def _(ex, st, a, c):
    return a[0]


@pattern(r"^<std::(slice::Iter|slice::IterMut|vec::IntoIter|array::IntoIter) as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def _(ex, st, a, c):
    p = a[0]
    it = ex.load(st, p.a, p.p)
    al, path, i, e = it.d
    if not ex.decide(st, t.lt(i, e)):
        return NONE
    if c["f"]["key"].endswith("next"):
        k = i
        ex.store(st, p.a, p.p, Iter(it.k, al, path, t.add(i, ONE), e))
    else:
        k = t.sub(e, ONE)
        ex.store(st, p.a, p.p, Iter(it.k, al, path, i, k))
    q = elem_ptr(al, path, k)
    if it.k == "own":
        return some(ex.load(st, q.a, q.p))
    return some(q)


@pattern(r"<std::(slice::Iter|slice::IterMut|vec::IntoIter) as std::iter::ExactSizeIterator>::len$")
def _(ex, st, a, c):
    it = ex.load(st, a[0].a, a[0].p)
    return t.sub(it.d[3], it.d[2])


@pattern(r"<impl std::iter::(Iterator|DoubleEndedIterator) for std::ops::Range>::(next|next_back)$|<std::ops::Range as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def _(ex, st, a, c):
    p = a[0]
    r = ex.load(st, p.a, p.p)
    lo, hi = r.f
    if not ex.decide(st, t.lt(lo, hi)):
        return NONE
    if c["f"]["key"].endswith("next"):
        ex.store(st, p.a, p.p, Agg(0, (t.add(lo, ONE), hi)))
        return some(lo)
    hi = t.sub(hi, ONE)
    ex.store(st, p.a, p.p, Agg(0, (lo, hi)))
    return some(hi)


@pattern(r"std::ops::RangeInclusive::new$")
def _(ex, st, a, c):
    return Agg(0, (a[0], a[1], FALSE))


@pattern(r"<impl std::iter::(Iterator|DoubleEndedIterator) for std::ops::RangeInclusive>::(next|next_back)$|<std::ops::RangeInclusive as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$")
def _(ex, st, a, c):
    p = a[0]
    r = ex.load(st, p.a, p.p)
    lo, hi, done = r.f
    if ex.decide(st, t.bor(done, t.lt(hi, lo))):
        return NONE
    fwd = c["f"]["key"].endswith("next")
    x = lo if fwd else hi
    if ex.decide(st, t.eq(lo, hi)):
        ex.store(st, p.a, p.p, Agg(0, (lo, hi, TRUE)))
    elif fwd:
        ex.store(st, p.a, p.p, Agg(0, (t.add(lo, ONE), hi, FALSE)))
    else:
        ex.store(st, p.a, p.p, Agg(0, (lo, t.sub(hi, ONE), FALSE)))
    return some(x)


@pattern(r"std::ops::(Range|RangeInclusive)::contains$|<std::ops::(Range|RangeInclusive) as std::ops::RangeBounds>::contains$")
def _(ex, st, a, c):
    r = ex.load(st, a[0].a, a[0].p)
    x = deref(ex, st, a[1])
    lo, hi = r.f[0], r.f[1]
    return t.band(ex.fcmp("Le", lo, x), ex.fcmp("Le" if "Inclusive" in c["f"]["key"] else "Lt", x, hi))


@pattern(r"^<std::ops::Range as std::iter::ExactSizeIterator>::len$")
def _(ex, st, a, c):
    r = ex.load(st, a[0].a, a[0].p)
    return t.tmax(t.sub(r.f[1], r.f[0]), ZERO)


# adapters without an exported body end up here
def iter_next(ex, st, ty, p):
    """call the next() of the iterator type ty on the value at p"""
    d = ex.tys[ty]
    for f in ex.fns:
        pass
    raise Unsupported("iterator " + d["s"])


# ------------------------------------------------------------------ sync
@pattern(r"std::sync::Mutex::new$|std::cell::(RefCell|Cell)::new$|std::sync::RwLock::new$")
def _(ex, st, a, c):
    return Agg(0, (a[0],))


@pattern(r"std::sync::Mutex::lock$|std::sync::RwLock::(read|write)$")
def _(ex, st, a, c):
    p = a[0]
    return Agg(0, (Ptr(p.a, p.p + (0,)),))


@pattern(r"std::sync::Mutex::get_mut$")
def _(ex, st, a, c):
    p = a[0]
    return Agg(0, (Ptr(p.a, p.p + (0,)),))


@pattern(r"std::sync::Mutex::into_inner$")
def _(ex, st, a, c):
    return Agg(0, (a[0].f[0],))


@pattern(r"<std::sync::MutexGuard as std::ops::(Deref|DerefMut)>::\w+$|<std::sync::RwLock\w+Guard as std::ops::(Deref|DerefMut)>::\w+$")
def _(ex, st, a, c):
    return ex.load(st, a[0].a, a[0].p)


@pattern(r"^std::intrinsics::atomic_xadd$")
def _(ex, st, a, c):
    p = a[0]
    v = ex.load(st, p.a, p.p)
    ex.store(st, p.a, p.p, t.add(v, a[1]))
    return v


# ------------------------------------------------------------------ mem
@pattern(r"(std|core)::mem::swap$|std::intrinsics::typed_swap_nonoverlapping$")
def _(ex, st, a, c):
    x, y = ex.load(st, a[0].a, a[0].p), ex.load(st, a[1].a, a[1].p)
    ex.store(st, a[0].a, a[0].p, y)
    ex.store(st, a[1].a, a[1].p, x)


@pattern(r"(std|core)::mem::replace$")
def _(ex, st, a, c):
    x = ex.load(st, a[0].a, a[0].p)
    ex.store(st, a[0].a, a[0].p, a[1])
    return x


@pattern(r"(std|core)::mem::(drop|forget)$|std::intrinsics::(assume|cold_path)$|^std::hint::(assert_unchecked|spin_loop|unreachable_unchecked)")
def _(ex, st, a, c):
    return Agg(0, ())


@pattern(r"std::intrinsics::(black_box)$|^(std|core)::hint::(must_use|black_box)$")
def _(ex, st, a, c):
    return a[0]


# ------------------------------------------------------------------ panics
@pattern(r"panicking::(panic|panic_fmt|panic_display|unreachable_display|panic_explicit|panic_str|assert_failed|panic_nounwind)|rt::(begin_panic|panic_fmt|panic_display)|(option|result)::(unwrap_failed|expect_failed)|unimplemented_default_msg|process::abort|panic_bounds_check|panic_const")
def _(ex, st, a, c):
    if "unimplemented_default_msg" in c["f"]["key"]:
        return Op("fmt")
    msg = a[0].s if a and isinstance(a[0], Str) else c["f"]["key"].rsplit("::", 1)[1]
    ex.oblige(st, "no panic: reachable panic (%s)" % msg[:60], FALSE, None, "panic")
    raise PathEnd()


def bytes_text(ex, st, v):
    """what a byte string or formatted text says"""
    if isinstance(v, Text):
        return v.s
    if isinstance(v, Str):
        return (v.s,)
    if isinstance(v, Ptr):
        m = v.m
        x = ex.load(st, v.a, v.p)
        if isinstance(x, (Text, Str)):
            return bytes_text(ex, st, x)
        el = elems(ex, st, v)
        if all(isinstance(b, T) and b.op == "num" for b in el):
            return (bytes(int(b.args[0]) for b in el).decode("latin-1"),)
    raise Unsupported("text %r %s %s" % (v, type(v), c["f"]["key"] if isinstance(c, dict) else ""))


@pattern(r"^core::fmt::rt::Argument::new_display$")
def _(ex, st, a, c):
    d = ex.tys[c["f"]["targs"][0]]
    v = ex.load(st, a[0].a, a[0].p)
    if d["k"] in ("int", "uint") and isinstance(v, T):
        return Text((v,))
    if isinstance(v, (Str, Text)):
        return Text((v.s,) if isinstance(v, Str) else v.s)
    return Op("fmt")


@pattern(r"^std::fmt::Arguments::new$")
def _(ex, st, a, c):
    tp = [int(x.args[0]) for x in elems(ex, st, a[0])]
    args = list(elems(ex, st, a[1]))
    out, i, n = [], 0, 0
    while i < len(tp) and tp[i]:
        b = tp[i]
        i += 1
        if b < 0x80 or b == 0x80:
            if b == 0x80:
                b = tp[i] | tp[i + 1] << 8
                i += 2
            out.append(bytes(tp[i:i + b]).decode())
            i += b
        elif b == 0xC0 and n < len(args) and isinstance(args[n], Text):
            out += args[n].s
            n += 1
        else:
            return Op("fmt")
    return Text(out)


@pattern(r"^std::fmt::Arguments::(from_str|new_const)$")
def _(ex, st, a, c):
    return Text((a[0].s,)) if isinstance(a[0], Str) else Op("fmt")


@pattern(r"^(std|alloc)::fmt::format$|string::String::(as_bytes|as_str)$|<(std|alloc)::string::String as std::ops::Deref>::deref$|^core::str::<impl str>::as_bytes$|string::String::into_bytes$|<(std|alloc)::string::String as std::convert::AsRef>::as_ref$")
def _(ex, st, a, c):
    v = a[0]
    if isinstance(v, Ptr):
        v = ex.load(st, v.a, v.p)
    if not isinstance(v, (Text, Str)):
        raise Unsupported("text %r %s %s" % (v, type(v), c["f"]["key"] if isinstance(c, dict) else ""))
    return Text(v.s) if isinstance(v, Text) else v


@pattern(r"^std::io::Write::write_fmt$|<pt::.*Sink as std::io::Write>::write_fmt$|as std::io::Write>::write_fmt$")
def _(ex, st, a, c):
    if not isinstance(a[1], Text):
        raise Unsupported("formatted text")
    written(st, a[1].s)
    return Agg(0, (Agg(0, ()),))


def written(st, pieces):
    ev = dict(st.events)
    ev["%text"] = ev.get("%text", ()) + tuple(pieces)
    st.events = ev


@model(P("text_out"))
def _(ex, st, a, c):
    written(st, bytes_text(ex, st, a[0]))
    return Agg(0, ())


def text_table(st):
    """lines of words; a word is a list of literal strings and numbers"""
    lines = [[[]]]
    for p in st.events.get("%text", ()):
        if isinstance(p, T):
            lines[-1][-1].append(p)
            continue
        for ch in p:
            if ch == "\n":
                lines.append([[]])
            elif ch == " ":
                lines[-1].append([])
            else:
                lines[-1][-1].append(ch)
    return lines


def text_word(st, a):
    l, k = int(a[0].args[0]), int(a[1].args[0])
    tb = text_table(st)
    return tb[l][k] if l < len(tb) and k < len(tb[l]) else []


@model(P("text_lines"))
def _(ex, st, a, c):
    tb = text_table(st)
    return t.num(-1 if tb[-1] != [[]] else len(tb) - 1)


@model(P("text_words"))
def _(ex, st, a, c):
    l = int(a[0].args[0])
    tb = text_table(st)
    return t.num(len(tb[l]) if l < len(tb) else 1)


@model(P("text_is"))
def _(ex, st, a, c):
    w = text_word(st, a)
    if any(isinstance(x, T) for x in w):
        raise Unsupported("comparison of a number with a word")
    return TRUE if "".join(w) == a[2].s else FALSE


@model(P("text_int"))
def _(ex, st, a, c):
    w = text_word(st, a)
    if len(w) == 1 and isinstance(w[0], T):
        return w[0]
    if any(isinstance(x, T) for x in w):
        raise Unsupported("number next to text")
    try:
        return t.num(int("".join(w)))
    except ValueError:
        return t.num(-1)


@pattern(r"^core::fmt::rt::|^std::fmt::Arguments::|^std::fmt::|_print$|_eprint$|^std::io::_")
def _(ex, st, a, c):
    return Op("fmt")


# ------------------------------------------------------------------ randomness
@pattern(r"rand::StdRng::new$")
def _(ex, st, a, c):
    return Agg(0, (Op("rng"),))


@pattern(r"rand::Rng>::gen$|rand::Rng::gen$|rand::random$")
def _(ex, st, a, c):
    v = t.var("nn!rng%d" % len(st.inputs))
    st.inputs.append(("rng", v))
    ex.assume(st, t.band(t.le(ZERO, v), t.lt(v, ONE)))
    return v


@pattern(r"as std::any::Any>::type_id$")
def _(ex, st, a, c):
    raise Unsupported("type_id")


# ------------------------------------------------------------------ threads and files
@model(P("joinable"))
def _(ex, st, a, c):
    return Agg(0, (a[0],))


def event(st, name, args):
    ev = dict(st.events)
    ev[name] = ev.get(name, ()) + (tuple(args),)
    st.events = ev


@model("std::thread::JoinHandle::join", "std::thread::join_handle::JoinHandle::join")
def _(ex, st, a, c):
    event(st, "join", ())
    return Agg(0, (a[0].f[0],))


# options: write, create, truncate, append, create_new
OPTS = ("write", "create", "truncate", "append", "create_new", "read")


@model("std::fs::OpenOptions::new", "std::fs::File::options")
def _(ex, st, a, c):
    return Agg(0, (ZERO,) * len(OPTS))


def _opt(i):
    def m(ex, st, a, c):
        v = ex.load(st, a[0].a, a[0].p)
        b = a[1]
        ex.store(st, a[0].a, a[0].p, Agg(0, v.f[:i] + (ONE if b is TRUE else ZERO if b is FALSE else t.ite(b, ONE, ZERO),) + v.f[i + 1:]))
        return a[0]
    return m


for _i, _n in enumerate(OPTS):
    model("std::fs::OpenOptions::" + _n)(_opt(_i))


def opened(ex, st, path, flags):
    while isinstance(path, Ptr):
        path = ex.load(st, path.a, path.p)
    ok = isinstance(path, Str) and path.s == "output.ppm"
    event(st, "open", tuple(flags) + (ONE if ok else ZERO,))
    return Agg(0, (Agg(0, ()),))


@model("std::fs::OpenOptions::open")
def _(ex, st, a, c):
    return opened(ex, st, a[1], ex.load(st, a[0].a, a[0].p).f)


@model("std::fs::File::create")
def _(ex, st, a, c):
    return opened(ex, st, a[0], (ONE, ONE, ONE, ZERO, ZERO, ZERO))


@model("std::io::BufWriter::new", "std::io::BufWriter::with_capacity", "std::io::buffered::bufwriter::BufWriter::new")
def _(ex, st, a, c):
    return Agg(0, (a[-1],))
