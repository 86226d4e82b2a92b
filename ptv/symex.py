"""Symbolic execution of exported MIR: generates verification conditions for the contract harnesses."""
import os
import re, struct, time
from fractions import Fraction as Fr
import terms as t
from terms import T, ZERO, ONE, TRUE, FALSE


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    pass


class Sp:
    """non-finite floating values"""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


INF, NINF, NAN = Sp("inf"), Sp("-inf"), Sp("nan")


class Agg:
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v, self.f = v, tuple(f)

    def __repr__(self):
        return "{%s%s}" % ("" if self.v == 0 else "#%s " % self.v, ", ".join(map(repr, self.f)))


class Seq:
    """Vec / boxed slice contents of concrete length"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return "Seq%r" % (self.e,)


class SymSeq:
    """sequence of symbolic length; base(st, i) produces the element, updates override"""
    __slots__ = ("n", "base", "up")

    def __init__(self, n, base, up=()):
        self.n, self.base, self.up = n, base, up


class Ptr:
    __slots__ = ("a", "p", "m")

    def __init__(self, a, p=(), m=None):
        self.a, self.p, self.m = a, p, m

    def __repr__(self):
        return "&%s%s%s" % (self.a, "".join(".%s" % (x,) for x in self.p), "" if self.m is None else "|%r" % (self.m,))


class FnV:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


class Text:
    """formatted text: literal strings and numbers"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = tuple(s)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Str(%r)" % self.s


class Op:
    """opaque value"""
    __slots__ = ("k", "d")

    def __init__(self, k, d=None):
        self.k, self.d = k, d

    def __repr__(self):
        return "<%s %r>" % (self.k, self.d)


class Iter:
    """iterator state handled by the models"""
    __slots__ = ("k", "d")

    def __init__(self, k, *d):
        self.k, self.d = k, d

    def __repr__(self):
        return "<iter %s %r>" % (self.k, self.d)


class Frame:
    __slots__ = ("fn", "bb", "i", "uid", "dest", "target", "visits", "native", "loops")

    def __init__(self, fn, uid, dest, target):
        self.fn, self.bb, self.i, self.uid, self.dest, self.target = fn, 0, 0, uid, dest, target
        self.visits = {}
        self.loops = {}

    def copy(self):
        f = Frame(self.fn, self.uid, self.dest, self.target)
        f.bb, f.i, f.visits = self.bb, self.i, dict(self.visits)
        f.loops = dict(self.loops)
        return f


NWIT = 300


class Point(dict):
    """a random assignment to every input, filled on demand; only ever used to skip feasibility queries"""
    def __init__(self, seed):
        self.r = __import__("random").Random(seed)
        self.kind = seed % 4
        self.memo = {}

    def __contains__(self, k):
        return True

    tol = 1e-7

    def __missing__(self, k):
        r = self.r
        n = k[3:] if k.startswith("nn!") else k[4:] if k.startswith("pos!") else k
        if n[:1] == "i" and n[1:].isdigit():
            v = r.choice((0, 1, 2, 3, 5, 8, 17))
            if n is k:
                v *= r.choice((-1, 1))
        else:
            v = r.uniform(-1, 1) * r.choice((0.3, 1, 1, 2, 9)) if self.kind else float(r.choice((-3, -2, -1, 1, 2, 3)))
            if n is not k:
                v = abs(v) + 1e-3
        self[k] = v
        return v


class State:
    def __init__(self):
        self.frames, self.mem, self.pc, self.dec = [], {}, [], {}
        self.inputs, self.events, self.ghost, self.trail, self.stubs = [], {}, {}, [], {}
        self.loopc = {}      # function -> {loop number: (havoc, invariant)}
        self.j = None
        self.obs = []
        self.nfresh = 0
        self.wit = dict.fromkeys(range(NWIT), 0)   # sample points: how much of pc each is known to satisfy

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem, s.pc, s.dec = dict(self.mem), list(self.pc), dict(self.dec)
        s.inputs, s.events, s.ghost, s.trail = list(self.inputs), dict(self.events), dict(self.ghost), list(self.trail)
        s.stubs = self.stubs
        s.loopc = self.loopc
        s.obs = list(self.obs)
        s.nfresh = self.nfresh
        s.wit = dict(self.wit)
        return s

    def set(self, a, v):
        if self.j is not None:
            self.j.append((a, self.mem.get(a, None), a in self.mem))
        self.mem[a] = v

    def mark(self):
        prev, self.j = self.j, []
        return (prev, len(self.pc), len(self.inputs), dict(self.events), dict(self.ghost), self.nfresh, len(self.obs), self.stubs)

    def rollback(self, m):
        prev = m[0]
        for a, v, had in reversed(self.j):
            if had:
                self.mem[a] = v
            else:
                self.mem.pop(a, None)
        m = m[1:]
        for x in self.pc[m[0]:]:
            self.dec.pop(x, None)
            self.dec.pop(t.bnot(x), None)
        del self.pc[m[0]:]
        for k, v in self.wit.items():
            if v > m[0]:
                self.wit[k] = m[0]
        del self.inputs[m[1]:]
        self.events, self.ghost, self.nfresh = m[2], m[3], m[4]
        del self.obs[m[5]:]
        self.stubs = m[6]
        self.j = prev

    def commit(self, m):
        if m[0] is not None:
            m[0].extend(self.j)
        self.j = m[0]


# floating constants that idealise to multiples of pi
def _consts():
    import math
    d = {}
    def put(x, v):
        f32 = struct.unpack("<f", struct.pack("<f", x))[0]
        d[("32", struct.unpack("<I", struct.pack("<f", x))[0])] = v
        d[("64", struct.unpack("<Q", struct.pack("<d", x))[0])] = v
        d[("64", struct.unpack("<Q", struct.pack("<d", f32))[0])] = v
    for q in (Fr(1), Fr(2), Fr(4), Fr(1, 2), Fr(1, 3), Fr(1, 4), Fr(1, 6), Fr(1, 8), Fr(3, 2), Fr(1, 180), Fr(1, 360), Fr(3), Fr(8), Fr(4, 3)):
        for s in (1, -1):
            put(float(s * q) * math.pi, t.scale(s * q, t.PI))
            put(float(s * q) / math.pi, t.scale(s * q, t.div(ONE, t.PI)))
    put(180 / math.pi, t.div(t.num(180), t.PI))
    for k in (2, 3):
        put(math.sqrt(k), t.fn("sqrt", t.num(k)))
        put(1 / math.sqrt(k), t.fn("sqrt", t.num(Fr(1, k))))
    put(math.sqrt(math.pi), t.fn("sqrt", t.PI))
    return d


CONSTS = _consts()


def fconst(bits, w):
    bits = int(bits)
    if w == 32:
        v = struct.unpack("<f", struct.pack("<I", bits))[0]
    else:
        v = struct.unpack("<d", struct.pack("<Q", bits))[0]
    if v != v:
        return NAN
    if v in (float("inf"), float("-inf")):
        return INF if v > 0 else NINF
    k = CONSTS.get((str(w), bits))
    if k is not None:
        return k
    if w == 32:
        # shortest decimal that reads back as the same f32
        for p in range(1, 10):
            s = "%.*e" % (p - 1, v)
            if abs(float(s)) <= F32_MAX and struct.unpack("<f", struct.pack("<f", float(s)))[0] == v:
                return t.num(Fr(s))
        return t.num(Fr(v))
    return t.num(Fr(repr(v)))


F32_MAX = float((2 ** 24 - 1) * 2 ** 104)


def norm_name(n):
    """strip generic arguments"""
    out, d, i = [], 0, 0
    # <A as B>::m
    if n.startswith("<"):
        dep = 0
        for k, c in enumerate(n):
            if c == "<":
                dep += 1
            elif c == ">" and n[k - 1] != "-":
                dep -= 1
                if dep == 0:
                    inner, rest = n[1:k], n[k + 1:]
                    parts = split_as(inner)
                    return "<" + " as ".join(norm_name(p) for p in parts) + ">" + norm_name(rest)
    res = ""
    k = 0
    while k < len(n):
        c = n[k]
        if c == "<" and not n.startswith("<impl", k):
            d, j = 0, k
            while j < len(n):
                if n[j] == "<":
                    d += 1
                elif n[j] == ">" and n[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if res.endswith("::"):
                res = res[:-2]
            k = j + 1
            continue
        if c == "<":
            d, j = 0, k
            while j < len(n):
                if n[j] == "<":
                    d += 1
                elif n[j] == ">" and n[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = n[k + 6:j]
            parts = [x for x in split_sep(inner, " for ")]
            res += "<impl " + " for ".join(norm_name(p) for p in parts) + ">"
            k = j + 1
            continue
        if c == "[":
            d, j = 0, k
            while j < len(n):
                if n[j] == "[":
                    d += 1
                elif n[j] == "]":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = n[k + 1:j]
            res += "[]" if len(split_sep(inner, ";")) < 2 else "[;]"
            k = j + 1
            continue
        res += c
        k += 1
    return res


def split_sep(s, sep):
    out, d, k, last = [], 0, 0, 0
    while k < len(s):
        if s[k] in "<([":
            d += 1
        elif s[k] in ">)]" and s[k - 1] != "-":
            d -= 1
        elif d == 0 and s.startswith(sep, k):
            out.append(s[last:k])
            last = k + len(sep)
            k = last
            continue
        k += 1
    out.append(s[last:])
    return out


def split_as(s):
    return split_sep(s, " as ")


class Limits:
    paths = 20000
    steps = 4000000
    seconds = 240
    visits = 600          # visits of one block in one activation
    feas_ms = 400


class Exec:
    def __init__(self, mir, limits=None, prover=None):
        self.m = mir
        self.fns, self.tys = mir["fns"], mir["tys"]
        self.lim = limits or Limits()
        self.prover = prover
        self.key = {}
        for f in self.fns:
            f["key"] = norm_name(f["name"])
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f["name"], f["id"])
        self.cmem = {}
        self.ncons = 0
        self.kcache = {}
        self.uid = 0
        self.obls = []
        self.seen_obl = {}
        self.feas = {}
        self.points = {}
        self.called = set()
        self.models_used = set()
        self.assumed = set()
        self.nz3 = 0
        self.tz3 = 0.0
        import models, loops
        self.models = models
        self.loops = loops
        self.loops_seen, self.loops_in, self.loops_kept = set(), set(), set()
        self.stubs_set, self.stubs_hit, self.loops_set = set(), set(), False

    # ------------------------------------------------------------ driving
    def run(self, root):
        self.t0 = time.time()
        self.paths, self.steps = 0, 0
        st = State()
        self.push(st, root, [], None, None)
        work = [st]
        ends = 0
        while work:
            st = work.pop()
            try:
                while st.frames:
                    self.step(st)
                ends += 1
                self.end_path(st)
            except Fork as f:
                c = f.cond
                self.paths += 1
                if self.paths > self.lim.paths:
                    raise Unsupported("more than %d paths" % self.lim.paths)
                a = st.copy()
                for s, cc in ((a, c), (st, t.bnot(c))):
                    self.assume(s, cc)
                    s.trail.append(cc)
                work.append(st)
                work.append(a)
            except PathEnd:
                pass
        self.ends = ends
        for f, k in self.loops_seen - (self.loops_in & self.loops_kept):
            raise Unsupported("loop contract of %s: no iteration satisfies it" % self.fns[f]["tname"])
        return self.obls

    def end_path(self, st):
        pass

    def where(self, st):
        for f in reversed(st.frames):
            fn = self.fns[f.fn]
            b = fn["body"]
            blk = b["blocks"][f.bb]
            line = blk["s"][f.i][3] if f.i < len(blk["s"]) and len(blk["s"][f.i]) > 3 else blk["l"]
            return "%s (%s:%s)" % (fn["tname"], b["file"], line)
        return "?"

    def assume(self, st, c):
        for x in (c.args if c.op == "and" else (c,)):
            if x is FALSE:
                raise PathEnd()
            if x is TRUE or st.dec.get(x) is True:
                continue
            if st.dec.get(x) is False:
                raise PathEnd()
            st.pc.append(x)
            st.dec[x] = True
            st.dec[t.bnot(x)] = False
            if x.op == "lt0":
                st.dec[t.mk("le0", x.args, True)] = True
                for o in ("eq0", "le0", "lt0"):
                    y = t.cmp0(o, t.neg(x.args[0]))
                    st.dec[y] = False
                    st.dec[t.bnot(y)] = True
            elif x.op == "eq0":
                for o in ("le0", "lt0"):
                    for u in (x.args[0], t.neg(x.args[0])):
                        y = t.cmp0(o, u)
                        st.dec[y] = o == "le0"
                        st.dec[t.bnot(y)] = o != "le0"

    def decide(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        d = st.dec.get(c)
        if d is not None:
            return d
        if c.op == "not" and c.args[0] in st.dec:
            return not st.dec[c.args[0]]
        if c.op == "and":
            return all(self.decide(st, x) for x in c.args)
        if c.op == "or":
            return any(self.decide(st, x) for x in c.args)
        c2 = self.simp(st, c)
        if c2 is not c:
            return self.decide(st, c2)
        # is one side excluded by the path condition?
        seen = self.witnessed(st, c)
        if len(seen) == 2:
            raise Fork(c)
        for cc, val in ((t.bnot(c), True), (c, False)):
            if (not val) not in seen and self.infeasible(st, cc):
                st.dec[c] = val
                st.dec[t.bnot(c)] = not val
                st.pc.append(t.bnot(cc))       # implied by what is there
                return val
        raise Fork(c)

    def witnessed(self, st, c):
        """truth values which c takes at sample points that satisfy the path condition"""
        seen = set()
        n = len(st.pc)
        for k in list(st.wit):
            w = self.points.get(k)
            if w is None:
                w = self.points[k] = Point(k)
            try:
                if not all(t.evalf(p, w, w.memo) for p in st.pc[st.wit[k]:]):
                    del st.wit[k]
                    continue
                st.wit[k] = n
                seen.add(bool(t.evalf(c, w, w.memo)))
            except (t.Undefd, OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
                del st.wit[k]
                continue
            if len(seen) == 2:
                break
        return seen

    def simp(self, st, x):
        m = {}
        for y in t.subterms([x]):
            if y.b and y is not x and y in st.dec:
                m[y] = t.boolv(st.dec[y])
        return t.subst(x, m) if m else x

    def infeasible(self, st, c):
        if self.prover is None:
            return False
        facts = self.prover.relevant([p for p in st.pc if not (p.op == "bvar")], c)
        facts = [f for f in facts if len(t.subterms([f])) < 120]
        if st.ghost.get("linear") and self.prover.is_linear(c):
            facts = [f for f in facts if self.prover.is_linear(f)]
        if c.op == "bvar" or c.op == "not" and c.args[0].op == "bvar":
            return False
        key = (c, frozenset(facts))
        r = self.feas.get(key)
        if r is None:
            t0 = time.time()
            if not self.prover_ok(facts + [c]):
                r = False
            else:
                q, _ = self.prover.z3check(facts + [c], self.lim.feas_ms)
                r = q == "unsat"
                if q == "unknown":
                    g = t.bnot(c)
                    if g.op == "not" and g.args[0].op == "eq0" or g.op in ("lt0", "le0"):
                        try:
                            r = bool(self.prover.poly_sign(facts, g, time.time() + 3))
                        except Exception:
                            r = False
            self.nz3 += 1
            self.tz3 += time.time() - t0
            self.feas[key] = r
        return r

    def prover_ok(self, facts):
        return len(t.subterms(facts)) < 2500

    def oblige(self, st, label, goal, refute=None, kind="check"):
        """record pc |- goal"""
        g = self.simp(st, goal) if goal not in (TRUE, FALSE) else goal
        if st.dec.get(g) is True:
            g = TRUE
        self.obls.append((label, tuple(st.pc), g, refute, kind, list(st.inputs), self.where(st)))

    # ------------------------------------------------------------ frames
    def push(self, st, fid, args, dest, target):
        f = self.fns[fid]
        b = f.get("body")
        if b is None:
            raise Unsupported("no body for " + f["name"])
        if len(st.frames) > 60:
            raise Unsupported("call depth")
        self.called.add(fid)
        self.uid += 1
        fr = Frame(fid, self.uid, dest, target)
        n = b["argc"]
        if b.get("spread") is not None and b["spread"]:
            sp = b["spread"]          # argument sp receives the tupled rest
            args = list(args[:sp - 1]) + [Agg(0, args[sp - 1:])] if len(args) != n or not isinstance(args[-1], Agg) else args
        elif len(args) != n:
            if len(args) >= 1 and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == n:
                args = list(args[:-1]) + list(args[-1].f)
            else:
                raise Unsupported("argument count of " + f["name"])
        for i, a in enumerate(args):
            st.set((fr.uid, i + 1), a)
        st.frames.append(fr)

    def step(self, st):
        self.steps += 1
        if self.steps > self.lim.steps or (self.steps & 255) == 0 and time.time() - self.t0 > self.lim.seconds:
            raise Unsupported("time or step budget exhausted")
        fr = st.frames[-1]
        if fr.i == 0 and fr.loops and fr.bb in fr.loops and fr.loops[fr.bb][0] != "in":
            self.loops.at_head(self, st, fr)
            return
        blk = self.fns[fr.fn]["body"]["blocks"][fr.bb]
        if fr.i < len(blk["s"]):
            s = blk["s"][fr.i]
            if s[0] == "=":
                # reading may fork, writing comes last
                v = self.rvalue(st, fr, s[2])
                self.write(st, fr, s[1], v)
            elif s[0] == "sd":
                a, p = self.place(st, fr, s[1])
                v = self.load(st, a, p)
                self.store(st, a, p, Agg(s[2], v.f if isinstance(v, Agg) else ()))
            else:
                raise Unsupported("statement " + s[0])
            fr.i += 1
            return
        self.term(st, fr, blk["t"])

    def goto(self, st, fr, bb):
        if fr.fn in st.loopc:
            self.loops.arrive(self, st, fr, fr.bb, bb)
        fr.bb, fr.i = bb, 0
        if bb in fr.loops:
            return
        n = fr.visits.get(bb, 0) + 1
        fr.visits[bb] = n
        if n > self.lim.visits:
            raise Unsupported("loop does not terminate within %d iterations in %s" % (self.lim.visits, self.fns[fr.fn]["tname"]))

    def term(self, st, fr, x):
        k = x[0]
        if k == "goto":
            self.goto(st, fr, x[1])
        elif k == "switch":
            v = self.oper(st, fr, x[1])
            for val, bb in x[2]:
                val = int(val)
                if isinstance(v, T) and v.b:
                    c = t.bnot(v) if val == 0 else v
                elif isinstance(v, T):
                    w = None
                    c = t.eq(v, t.num(val))
                    if v.op == "num" and v.args[0] < 0:
                        # negative discriminants are given as unsigned patterns
                        c = t.boolv(any(int(v.args[0]) % (1 << w) == val for w in (8, 16, 32, 64, 128)))
                else:
                    raise Unsupported("switch on %r" % (v,))
                if self.decide(st, c):
                    self.goto(st, fr, bb)
                    return
            self.goto(st, fr, x[3])
        elif k == "ret":
            v = st.mem.get((fr.uid, 0), Agg(0, ()))
            st.frames.pop()
            # locals of the frame are dead, but references to promoted temporaries never escape
            for i in range(len(self.fns[fr.fn]["body"]["locals"])):
                st.mem.pop((fr.uid, i), None)
            if fr.dest is not None:
                caller = st.frames[-1] if st.frames else None
                if callable(fr.dest):
                    fr.dest(v)
                else:
                    self.store(st, fr.dest[0], fr.dest[1], v)
                    self.goto(st, caller, fr.target)
            elif st.frames:
                if fr.target is not None:
                    self.goto(st, st.frames[-1], fr.target)
        elif k == "drop":
            self.goto(st, fr, x[2])
        elif k == "assert":
            v = self.oper(st, fr, x[1])
            c = v if x[2] else t.bnot(v)
            c = self.simp(st, c) if c not in (TRUE, FALSE) else c
            if c is not TRUE and st.dec.get(c) is not True:
                self.oblige(st, "no panic: " + self.assert_msg(x[3]), c, None, "panic")
                self.assume(st, c)
            self.goto(st, fr, x[4])
        elif k == "call":
            self.call(st, fr, x)
        elif k in ("resume", "unreach"):
            if k == "unreach":
                self.oblige(st, "unreachable code", FALSE, None, "panic")
            raise PathEnd()
        else:
            raise Unsupported("terminator %s" % (x,))

    def assert_msg(self, m):
        return m.split("{")[0].strip()[:50]

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        a, path = (fr.uid, pl[0]), ()
        meta = None
        for e in pl[1]:
            if e == "*":
                v = self.load(st, a, path)
                if isinstance(v, (Str, Text)):
                    return ("str", v), ()
                if not isinstance(v, Ptr):
                    raise Unsupported("dereference of %r" % (v,))
                a, path, meta = v.a, v.p, v.m
            elif e == "oc":
                pass
            elif e[0] == "f":
                path = path + (e[1],)
                meta = None
            elif e[0] == "v":
                pass
            elif e[0] == "i":
                i = self.load(st, (fr.uid, e[1]), ())
                path = path + (self.idx(meta, i),)
                meta = None
            elif e[0] == "ci":
                n = self.length(st, a, path, meta)
                i = t.num(e[1]) if not e[2] else t.sub(n, t.num(e[1]))
                path = path + (self.idx(meta, i),)
                meta = None
            else:
                raise Unsupported("place %s" % (e,))
        self.last_meta = meta
        return a, path

    def idx(self, meta, i):
        if meta is not None and meta[0] == "s":
            i = t.add(meta[1], i)
        return int(i.args[0]) if i.op == "num" else i

    def length(self, st, a, path, meta):
        if meta is not None and meta[0] == "s":
            return meta[2]
        v = self.load(st, a, path)
        return self.seqlen(v)

    def seqlen(self, v):
        if isinstance(v, Seq):
            return t.num(len(v.e))
        if isinstance(v, tuple):
            return t.num(len(v))
        if isinstance(v, SymSeq):
            return v.n
        raise Unsupported("length of %r" % (v,))

    def load(self, st, a, path):
        v = st.mem.get(a)
        if v is None:
            v = self.cmem.get(a)
            if v is None:
                if isinstance(a, tuple) and a and a[0] == "str":
                    return a[1]
                raise Unsupported("read of uninitialised memory %s in %s" % (a, self.where(st)))
        for e in path:
            v = self.get(st, v, e)
        return v

    def get(self, st, v, e):
        if isinstance(v, Agg):
            if isinstance(e, int) and e < len(v.f):
                r = v.f[e]
                if r is None:
                    raise Unsupported("read of moved or uninitialised field")
                return r
            raise Unsupported("field %s of %r" % (e, v))
        if isinstance(v, (Seq, tuple)):
            el = v.e if isinstance(v, Seq) else v
            if isinstance(e, int):
                if e >= len(el) or e < 0:
                    raise Unsupported("index out of range")
                return el[e]
            return self.pick(st, el, e)
        if isinstance(v, SymSeq):
            return self.symget(st, v, e)
        if isinstance(v, Ptr):      # Box / Arc / Unique wrappers
            return v
        if isinstance(v, (Str, FnV)):
            return v
        if isinstance(v, Iter):
            return v.d[e]
        raise Unsupported("projection %s of %r" % (e, v))

    def pick(self, st, el, i):
        if not el:
            raise Unsupported("index into empty")
        # candidates not excluded by the path
        r = el[-1]
        for k in range(len(el) - 2, -1, -1):
            c = t.eq(i, t.num(k))
            r2 = self.merge(c, el[k], r)
            if r2 is None:
                for k in range(len(el)):
                    if self.decide(st, t.eq(i, t.num(k))):
                        return el[k]
                raise PathEnd()
            r = r2
        return r

    def symget(self, st, v, e):
        i = t.num(e) if isinstance(e, int) else e
        hit = []
        for j, x in v.up:       # oldest first
            hit.append((t.eq(i, j), x))
        base = None
        r = None
        for c, x in reversed(hit):
            if c is TRUE or st.dec.get(c) is True:
                return x
            if c is FALSE or st.dec.get(c) is False:
                continue
            if self.decide(st, c):
                return x
        return v.base(st, i)

    def merge(self, c, a, b):
        """if c then a else b, structurally; None if impossible"""
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return t.ite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            f = [self.merge(c, x, y) for x, y in zip(a.f, b.f)]
            return None if any(x is None for x in f) else Agg(a.v, f)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            f = [self.merge(c, x, y) for x, y in zip(a, b)]
            return None if any(x is None for x in f) else tuple(f)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.a == b.a and a.p == b.p and a.m == b.m:
            return a
        return None

    def put(self, st, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        if v is None:
            v = Agg(0, ())
        if isinstance(v, Agg):
            f = list(v.f)
            while len(f) <= e:
                f.append(None)
            f[e] = self.put(st, f[e], rest, new)
            return Agg(v.v, f)
        if isinstance(v, (Seq, tuple)):
            el = list(v.e if isinstance(v, Seq) else v)
            if isinstance(e, int):
                el[e] = self.put(st, el[e], rest, new)
            else:
                out = None
                cand = []
                for k in range(len(el)):
                    c = t.eq(e, t.num(k))
                    m = self.merge(c, self.put(st, el[k], rest, new), el[k])
                    if m is None:
                        cand = None
                        break
                    cand.append(m)
                if cand is not None:
                    el = cand
                else:
                    for k in range(len(el)):
                        if self.decide(st, t.eq(e, t.num(k))):
                            el[k] = self.put(st, el[k], rest, new)
                            break
            return Seq(el) if isinstance(v, Seq) else tuple(el)
        if isinstance(v, SymSeq):
            i = t.num(e) if isinstance(e, int) else e
            if rest:
                old = self.symget(st, v, i)
                new = self.put(st, old, rest, new)
            up = tuple((j, x) for j, x in v.up if j is not i) + ((i, new),)
            return SymSeq(v.n, v.base, up)
        raise Unsupported("write into %r" % (v,))

    def store(self, st, a, path, v):
        if not path:
            st.set(a, v)
        else:
            old = st.mem.get(a)
            if old is None and a in self.cmem:
                raise Unsupported("write to constant")
            st.set(a, self.put(st, old, path, v))

    def write(self, st, fr, pl, v):
        a, p = self.place(st, fr, pl)
        self.store(st, a, p, v)

    def alloc(self, st, v, tag="heap"):
        st.nfresh += 1
        a = (tag, len(st.trail), st.nfresh, self.uid)
        while a in st.mem:
            st.nfresh += 1
            a = (tag, len(st.trail), st.nfresh, self.uid)
        st.set(a, v)
        return a

    # ------------------------------------------------------------ operands and rvalues
    def oper(self, st, fr, o):
        if o[0] in ("c", "m"):
            a, p = self.place(st, fr, o[1])
            return self.load(st, a, p)
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rc":
            return TRUE
        raise Unsupported("operand " + o[0])

    def const(self, k):
        ty, v = k["ty"], k["v"]
        key = id(k)
        r = self.kcache.get(key)
        if r is None:
            r = self.decode(ty, v)
            self.kcache[key] = (k, r)
            return r
        return r[1]

    def decode(self, ty, v):
        d = self.tys[ty] if ty is not None else {}
        if "i" in v:
            return t.num(int(v["i"]))
        if "f" in v:
            return fconst(v["f"], v["w"])
        if "b" in v:
            return t.boolv(v["b"])
        if "str" in v:
            return Str(v["str"])
        if "a" in v:
            k = d.get("k")
            if k == "array":
                return tuple(self.decode(d["e"], x) for x in v["a"])
            if k == "fndef":
                return FnV(d.get("inst"))
            if k == "adt":
                vs = d["v"][v.get("v", 0)] if d["v"] else {"f": []}
                ft = [f[1] for f in vs["f"]]
                if d["n"] in ("std::vec::Vec", "alloc::vec::Vec"):
                    return Seq(())
                return Agg(v.get("v", 0), [self.decode(f, x) for f, x in zip(ft, v["a"])])
            if k in ("tuple", "closure"):
                return Agg(0, [self.decode(f, x) for f, x in zip(d["f"], v["a"])])
            return Agg(0, [self.decode(None, x) for x in v["a"]])
        if "refslice" in v:
            e = self.tys[d["e"]]["e"] if d.get("k") in ("ref", "ptr") else None
            self.ncons += 1
            a = ("const", self.ncons)
            self.cmem[a] = tuple(self.decode(e, x) for x in v["refslice"])
            return Ptr(a, (), ("s", ZERO, t.num(len(v["refslice"]))))
        if "ref" in v:
            self.ncons += 1
            a = ("const", self.ncons)
            val = self.decode(v["ty"], v["ref"])
            self.cmem[a] = val
            return Ptr(a, ())
        if "fn" in v:
            return FnV(v["fn"])
        return Op("const", str(v))

    def tyw(self, ty):
        d = self.tys[ty]
        return d["k"], d.get("w")

    def rng(self, ty):
        d = self.tys[ty]
        k, w = d["k"], d.get("w")
        if k == "uint":
            return 0, (1 << w) - 1
        if k == "int":
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        if k == "char":
            return 0, 0x10FFFF
        if k == "bool":
            return 0, 1
        return None

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.oper(st, fr, r[1])
        if k == "ref":
            a, p = self.place(st, fr, r[1])
            if isinstance(a, tuple) and a and a[0] == "str":
                return a[1]
            m = self.last_meta if r[1][1] and r[1][1][-1] == "*" else None
            return Ptr(a, p, m)
        if k == "bin":
            return self.binop(st, r[1], self.oper(st, fr, r[2]), self.oper(st, fr, r[3]), r[4])
        if k == "cbin":
            return self.binop(st, r[1] + "WithOverflow", self.oper(st, fr, r[2]), self.oper(st, fr, r[3]), r[4])
        if k == "un":
            a = self.oper(st, fr, r[2])
            if r[1] == "Neg":
                return self.fneg(a) if self.tys[r[3]]["k"] == "float" else t.neg(a)
            if r[1] == "Not":
                if isinstance(a, T) and a.b:
                    return t.bnot(a)
                lo, hi = self.rng(r[3])
                return t.sub(t.num(-1), a) if lo < 0 else t.sub(t.num(hi), a)
            if r[1] == "PtrMetadata":
                if isinstance(a, Ptr):
                    if a.m is None:
                        v = self.load(st, a.a, a.p)
                        return self.seqlen(v)
                    if a.m[0] == "s":
                        return a.m[2]
                if isinstance(a, Str):
                    return t.num(len(a.s))
                raise Unsupported("metadata of %r" % (a,))
            raise Unsupported("unary " + r[1])
        if k == "cast":
            return self.cast(st, r, self.oper(st, fr, r[2]))
        if k == "disc":
            a, p = self.place(st, fr, r[1])
            v = self.load(st, a, p)
            d = self.tys[r[2]]
            if d["k"] == "adt" and d["kind"] == "enum":
                if not isinstance(v, Agg):
                    raise Unsupported("discriminant of %r" % (v,))
                return t.num(int(d["v"][v.v]["d"]))
            return ZERO
        if k == "len":
            a, p = self.place(st, fr, r[1])
            return self.length(st, a, p, self.last_meta)
        if k == "rep":
            v = self.oper(st, fr, r[1])
            return tuple([v] * r[2])
        if k == "agg":
            vs = [self.oper(st, fr, o) for o in r[2]]
            kd = r[1]
            if kd[0] == "array":
                return tuple(vs)
            if kd[0] in ("tuple", "closure"):
                return Agg(0, vs)
            if kd[0] == "adt":
                d = self.tys[kd[1]]
                if kd[3] is not None:
                    raise Unsupported("union")
                return Agg(kd[2], vs)
            if kd[0] == "rawptr":
                p, m = vs
                if isinstance(m, T):
                    return Ptr(p.a, p.p, ("s", p.m[1] if p.m else ZERO, m))
                return p
            raise Unsupported("aggregate %s" % kd[0])
        raise Unsupported("rvalue " + k)

    def cast(self, st, r, v):
        kind, sty, dty = r[1], self.tys[r[3]], self.tys[r[4]]
        if "Unsize" in kind:
            return self.unsize(st, v, r[3], r[4])
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            return FnV(r[5])
        if kind in ("Transmute", "PtrToPtr", "FnPtrToPtr", "Subtype", "BoxDerefTransmute") or "PointerCoercion" in kind:
            if sty["k"] == "float" or dty["k"] == "float" and kind == "Transmute":
                raise Unsupported("transmute of float bits")
            if isinstance(v, Ptr) and dty["k"] in ("int", "uint"):
                return self.address(v)
            return v
        if kind in ("PointerExposeProvenance", "PointerExposeAddress") and isinstance(v, Ptr):
            return self.address(v)
        if kind == "IntToInt":
            if isinstance(v, T) and v.b:
                return t.ite(v, ONE, ZERO)
            return self.wrap(st, v, r[4])
        if kind == "IntToFloat":
            return v
        if kind == "FloatToFloat":
            return v
        if kind == "FloatToInt":
            lo, hi = self.rng(r[4])
            if v is NAN:
                return ZERO
            if v is INF:
                return t.num(hi)
            if v is NINF:
                return t.num(lo)
            if self.decide(st, t.lt(v, t.num(lo))):
                return t.num(lo)
            if self.decide(st, t.lt(t.num(hi), v)):
                return t.num(hi)
            if v.isint:
                return v
            if v.op != "num" and not t.nonneg(v):
                return t.floor(v) if self.decide(st, t.le(ZERO, v)) else t.ceil(v)
            return t.trunc(v)
        raise Unsupported("cast " + kind)

    def address(self, v):
        """A number per object: equal exactly for equal places (of the objects compared, none lies inside another)."""
        reg = self.__dict__.setdefault("addresses", {})
        p = tuple(v.p)
        if (v.a, p) not in reg:
            for (a, q) in reg:
                if a == v.a and (p[:len(q)] == q or q[:len(p)] == p):
                    raise Unsupported("address of a part of an object whose address is taken")
            reg[(v.a, p)] = t.num(0x10000 * (len(reg) + 1))
        return reg[(v.a, p)]

    def wrap(self, st, v, ty):
        lo, hi = self.rng(ty)
        if v.op == "num":
            n = int(v.args[0])
            return t.num((n - lo) % (hi - lo + 1) + lo)
        if self.decide(st, t.lt(v, t.num(lo))) or self.decide(st, t.lt(t.num(hi), v)):
            m = t.num(hi - lo + 1)
            return t.add(t.imod(t.sub(v, t.num(lo)), m), t.num(lo))
        return v

    def strip_ptr(self, ty):
        d = self.tys[ty]
        while d["k"] in ("ref", "ptr"):
            return d["e"]
        if d["k"] == "adt" and d["args"]:
            return d["args"][0]
        raise Unsupported("pointer type " + d["s"])

    def unsize(self, st, v, sty, dty):
        s, d = self.strip_ptr(sty), self.strip_ptr(dty)
        if not isinstance(v, Ptr):
            raise Unsupported("unsize of %r" % (v,))
        if self.tys[d]["k"] == "dyn":
            if self.tys[s]["k"] == "dyn":
                return v
            return Ptr(v.a, v.p, ("d", s))
        if self.tys[d]["k"] == "slice":
            n = self.tys[s].get("n", 0)
            return Ptr(v.a, v.p, ("s", ZERO, t.num(n)))
        raise Unsupported("unsize to " + self.tys[d]["s"])

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, ty):
        d = self.tys[ty]
        if d["k"] == "float":
            f = {"Add": self.fadd, "Sub": lambda s, x, y: self.fadd(s, x, self.fneg(y)), "Mul": self.fmul, "Div": self.fdiv, "Rem": self.frem}.get(op)
            if f:
                return f(st, a, b)
            return self.fcmp(op, a, b)
        if d["k"] == "bool" or isinstance(a, T) and a.b:
            if op == "Eq":
                return t.biff(a, b)
            if op == "Ne" or op == "BitXor":
                return t.bnot(t.biff(a, b))
            if op == "BitAnd":
                return t.band(a, b)
            if op == "BitOr":
                return t.bor(a, b)
            if op in ("Lt", "Gt", "Le", "Ge"):
                x, y = t.ite(a, ONE, ZERO), t.ite(b, ONE, ZERO)
                return self.icmp(op, x, y)
        if isinstance(a, T) and isinstance(b, T):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return self.icmp(op, a, b)
            lo, hi = self.rng(ty)
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            if base in ("Add", "Sub", "Mul"):
                v = t.add(a, b) if base == "Add" else t.sub(a, b) if base == "Sub" else t.mul(a, b)
                if op.endswith("WithOverflow"):
                    ov = t.bor(t.lt(v, t.num(lo)), t.lt(t.num(hi), v))
                    return Agg(0, [v, ov])
                if op.endswith("Unchecked"):
                    return v
                return self.wrap(st, v, ty)
            if base == "Div":
                if b.op == "num" and b.args[0] > 0 or lo == 0 or self.decide(st, t.lt(ZERO, b)):
                    if lo == 0 or t.nonneg(a) or self.decide(st, t.le(ZERO, a)):
                        return t.idiv(a, b)
                    return t.neg(t.idiv(t.neg(a), b))
                if self.decide(st, t.le(ZERO, a)):
                    return t.neg(t.idiv(a, t.neg(b)))
                return t.idiv(t.neg(a), t.neg(b))
            if base == "Rem":
                q = self.binop(st, "Div", a, b, ty)
                return t.sub(a, t.mul(q, b))
            if base in ("Shl", "Shr"):
                if b.op != "num":
                    for k in range(0, 64):
                        if self.decide(st, t.eq(b, t.num(k))):
                            b = t.num(k)
                            break
                if b.op != "num":
                    raise Unsupported("shift by a symbolic amount")
                s = int(b.args[0])
                if base == "Shl":
                    return self.wrap(st, t.scale(Fr(1 << s), a), ty)
                return t.idiv(a, t.num(1 << s))
            if base in ("BitAnd", "BitOr", "BitXor"):
                return self.bits(st, base, a, b, lo, hi)
            if op == "Cmp":
                if self.decide(st, t.lt(a, b)):
                    return Agg(0, ())
                return Agg(1, ()) if self.decide(st, t.eq(a, b)) else Agg(2, ())
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("Eq", "Ne"):
            same = a.a == b.a and a.p == b.p
            return t.boolv(same == (op == "Eq"))
        if op == "Offset":
            if isinstance(a, Ptr) and a.p and isinstance(b, T):
                pass
        raise Unsupported("%s on %r, %r" % (op, a, b))

    def bits(self, st, op, a, b, lo, hi):
        if a.op == "num" and b.op == "num":
            x, y = int(a.args[0]), int(b.args[0])
            return t.num(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
        if a.op == "num":
            a, b = b, a
        if b.op != "num":
            raise Unsupported("bit operation on symbolic values")
        m = int(b.args[0])
        if m < 0 or lo < 0:
            raise Unsupported("bit operation on signed symbolic values")
        both = []          # runs of ones in the mask
        k = 0
        out = ZERO
        while (m >> k) != 0:
            if (m >> k) & 1:
                e = k
                while (m >> e) & 1:
                    e += 1
                part = t.scale(Fr(1 << k), t.imod(t.idiv(a, t.num(1 << k)), t.num(1 << (e - k))))
                out = t.add(out, part)
                k = e
            else:
                k += 1
        if op == "BitAnd":
            return out
        if op == "BitOr":
            return t.add(a, b, t.neg(out))
        return t.add(a, b, t.scale(Fr(-2), out))

    def icmp(self, op, a, b):
        if op == "Eq":
            return t.eq(a, b)
        if op == "Ne":
            return t.bnot(t.eq(a, b))
        if op == "Lt":
            return t.lt(a, b)
        if op == "Le":
            return t.le(a, b)
        if op == "Gt":
            return t.lt(b, a)
        if op == "Ge":
            return t.le(b, a)

    def fcmp(self, op, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return self.icmp(op, a, b)
        if a is NAN or b is NAN:
            return t.boolv(op == "Ne")
        rank = lambda x: 1 if x is INF else -1 if x is NINF else 0
        x, y = rank(a), rank(b)
        return t.boolv({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])

    def fneg(self, a):
        if isinstance(a, T):
            return t.neg(a)
        return NAN if a is NAN else NINF if a is INF else INF

    def fadd(self, st, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return t.add(a, b)
        if a is NAN or b is NAN:
            return NAN
        if isinstance(a, Sp) and isinstance(b, Sp):
            return a if a is b else NAN
        return a if isinstance(a, Sp) else b

    def sign(self, st, a):
        if isinstance(a, Sp):
            return 1 if a is INF else -1
        if self.decide(st, t.eq(a, ZERO)):
            return 0
        return 1 if self.decide(st, t.lt(ZERO, a)) else -1

    def fmul(self, st, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return t.mul(a, b)
        if a is NAN or b is NAN:
            return NAN
        s = self.sign(st, a) * self.sign(st, b)
        return NAN if s == 0 else INF if s > 0 else NINF

    def fdiv(self, st, a, b):
        if a is NAN or b is NAN:
            return NAN
        if isinstance(b, Sp):
            return NAN if isinstance(a, Sp) else ZERO
        if self.decide(st, t.eq(b, ZERO)):
            if isinstance(a, T) and self.decide(st, t.eq(a, ZERO)):
                return NAN
            s = 1 if a is INF else -1 if a is NINF else (1 if self.decide(st, t.lt(ZERO, a)) else -1)
            return INF if s * self.zero_sign(st, b) > 0 else NINF
        if isinstance(a, Sp):
            s = (1 if a is INF else -1) * (1 if self.decide(st, t.lt(ZERO, b)) else -1)
            return INF if s > 0 else NINF
        return t.div(a, b)

    def zero_sign(self, st, b):
        """the sign of a zero is not tracked by the reals: both are possible (consistently for one term)"""
        if b is ZERO:
            return 1
        c, d = t.lin(b)
        s = 1
        if c == 0 and len(d) == 1 and list(d.values())[0] < 0:
            s, b = -1, t.neg(b)
        g = st.ghost.get(("zs", b))
        if g is None:
            g = t.bvar("zs!%d" % b.id)
            st.ghost[("zs", b)] = g
        return s if self.decide(st, g) else -s

    def frem(self, st, a, b):
        if isinstance(a, T) and isinstance(b, T):
            if self.decide(st, t.eq(b, ZERO)):
                return NAN
            q = t.div(a, b)
            q = t.floor(q) if self.decide(st, t.le(ZERO, q)) else t.ceil(q)
            return t.sub(a, t.mul(q, b))
        raise Unsupported("float remainder")

    # ------------------------------------------------------------ calls
    def call(self, st, fr, x):
        _, callee, args, dest, target, atys, rty = x
        if "ptr" in callee:
            f = self.oper(st, fr, callee["ptr"])
            if not isinstance(f, FnV):
                raise Unsupported("call through %r" % (f,))
            fid = f.i
        elif "f" in callee:
            fid = callee["f"]
        else:
            raise Unsupported("unresolved call " + callee.get("dn", "?"))
        vals = [self.oper(st, fr, a) for a in args]
        self.invoke(st, fr, fid, vals, dest, target, atys, rty)

    def invoke(self, st, fr, fid, vals, dest, target, atys, rty):
        for _ in range(4):
            f = self.fns[fid]
            if f["kind"] == "virtual":
                meth = f["name"].rsplit("::", 1)[-1]
                p = vals[0]
                while isinstance(p, Ptr) and (p.m is None or p.m[0] != "d"):
                    p2 = self.load(st, p.a, p.p)
                    if not isinstance(p2, Ptr):
                        raise Unsupported("virtual call on %r" % (p,))
                    p = p2
                if not isinstance(p, Ptr):
                    raise Unsupported("virtual call on %r" % (p,))
                vt = self.m["vt"].get(str(p.m[1]), {})
                if meth not in vt:
                    raise Unsupported("no %s in vtable of %s" % (meth, self.tys[p.m[1]]["s"]))
                vals = [Ptr(p.a, p.p)] + list(vals[1:])
                fid = vt[meth]
                continue
            break
        if atys is not None and len(vals) == 2 and len(atys) == 2 and "{closure#" in f["name"].rsplit("::", 1)[-1] and self.tys[atys[1]]["k"] == "tuple" and isinstance(vals[1], Agg) and f.get("body") is not None and not f["body"].get("spread"):
            vals = [vals[0]] + list(vals[1].f)
            atys = None
        if fid in st.stubs and ("ptv_spec" not in self.fns[fr.fn]["key"] or "::via_" in self.fns[fr.fn]["key"]):
            self.stubs_hit.add(fid)
            fid = st.stubs[fid]
            f = self.fns[fid]
        name, key = f["name"], f["key"]
        if os.environ.get("PTV_CALLS"): print(key, vals)
        m = self.models.find(self, f, key)
        if m is None:
            if f.get("body") is None:
                raise Unsupported("call of " + name)
            d = None
            if target is not None:
                d = self.place(st, fr, dest)
            self.push(st, fid, vals, d, target)
            return
        mk = st.mark()
        try:
            v = m(self, st, vals, {"f": f, "atys": atys, "rty": rty, "fr": fr})
            if v is None:
                v = Agg(0, ())
            if target is None:
                raise Unsupported("return from diverging call " + name)
            a, p = self.place(st, fr, dest)
            self.store(st, a, p, v)
        except (Fork, Unsupported):
            st.rollback(mk)
            raise
        st.commit(mk)
        if not f["local"] or not name.startswith("pt::"):
            self.models_used.add(key)
        self.goto(st, fr, target)

    def call_sync(self, st, fid, vals):
        """run a function to completion inside a model (forks restart the enclosing statement)"""
        f = self.fns[fid]
        m = self.models.find(self, f, f["key"])
        if m is not None:
            v = m(self, st, vals, {"f": f, "atys": None, "rty": None, "fr": None})
            return Agg(0, ()) if v is None else v
        saved = st.frames
        st.frames = []
        out = []
        try:
            self.push(st, fid, vals, out.append, None)
            while st.frames:
                self.step(st)
        finally:
            st.frames = saved
        return out[0]
