"""Loops proved by an invariant.

At the head of a loop that has a contract: the invariant must hold on entry; the variables named by the havoc function
get arbitrary values; the invariant is assumed; one iteration is executed and must re-establish the invariant and leave
everything else that was there at the head as it was; the paths that leave the loop continue.
"""
from symex import Unsupported, PathEnd, Agg, Ptr, Seq, SymSeq, Iter


def structure(fn):
    """heads of the natural loops of a body, in source order: [(head, blocks)]"""
    b = fn["body"]
    if "loops" in b:
        return b["loops"]
    blocks = b["blocks"]

    def succ(i):
        x = blocks[i]["t"]
        k = x[0]
        if k == "goto":
            return [x[1]]
        if k == "switch":
            return [y for _, y in x[2]] + [x[3]]
        if k == "drop":
            return [x[2]]
        if k == "assert":
            return [x[4]]
        if k == "call":
            return [x[4]] if x[4] is not None else []
        return []
    n = len(blocks)
    reach, work = set(), [0]
    while work:
        i = work.pop()
        if i in reach:
            continue
        reach.add(i)
        work += succ(i)
    pred = {i: [] for i in range(n)}
    for i in reach:
        for j in succ(i):
            pred[j].append(i)
    dom = {i: set(reach) for i in reach}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for i in sorted(reach):
            if i == 0:
                continue
            d = set.intersection(*[dom[p] for p in pred[i]]) | {i}
            if d != dom[i]:
                dom[i] = d
                ch = True
    loops = {}
    for u in reach:
        for h in succ(u):
            if h in dom[u]:
                body = loops.setdefault(h, {h})
                w = [u]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += pred[x]
    # in the order of the source, outer loops first
    out = sorted(loops.items(), key=lambda x: (min(blocks[i]["l"] for i in x[1] if blocks[i]["l"]), -len(x[1]), x[0]))
    b["loops"] = out
    return out


def assigned(fn, body):
    """locals that are assigned (not through a pointer) in the loop"""
    r = set()
    for i in body:
        blk = fn["body"]["blocks"][i]
        for s in blk["s"]:
            if s[0] in ("=", "sd") and "*" not in s[1][1]:
                r.add(s[1][0])
        x = blk["t"]
        if x[0] == "call" and "*" not in x[3][1]:
            r.add(x[3][0])
    return r


def arrive(ex, st, fr, src, bb):
    for k, (h, body) in enumerate(structure(ex.fns[fr.fn])):
        if h != bb or k not in st.loopc[fr.fn]:
            continue
        fr.loops[bb] = ("kept", k, body, fr.loops[bb][3]) if src in body and bb in fr.loops else ("entry", k, body, None)


def params(ex, st, fr, fid, old, head):
    """the arguments of a contract function: locals of the same name"""
    f, c = ex.fns[fr.fn], ex.fns[fid]
    b, cb = f["body"], c["body"]
    names = {}
    for l, n in b["names"].items():
        names.setdefault(n, []).append(int(l))
    for n, l in CAPS(f).items():
        names.setdefault(n, []).append(l)
    args, cells = [], []
    for i in range(1, cb["argc"] + 1):
        n = cb["names"].get(str(i))
        ty = cb["locals"][i]
        src, was = n, False
        if n and n.startswith("old_"):
            src, was = n[4:], True
        nth = None
        if src and "__" in src:
            src, nth = src.split("__")[0], int(src.split("__")[1])
        if src and src.startswith("this"):
            src = "self" + src[4:]
        cand = sorted(names.get(src, []))
        if nth is None:
            cand = [l for l in cand if (fr.uid, l) in st.mem] or cand
            cand = [l for l in cand if fits(ex, ex.tys[ty], ex.tys[b["locals"][l]])] or cand
        if not cand:
            raise Unsupported("loop contract: no variable %s in %s" % (src, f["tname"]))
        l = cand[-1] if nth is None else cand[nth]
        lty = b["locals"][l]
        a = (fr.uid, l)
        d = ex.tys[ty]
        if not was and same(ex, d, ex.tys[lty]) and d["k"] != "ref":
            args.append(st.mem[a])
        elif not was and d["k"] == "ref" and same(ex, d, ex.tys[lty]):
            p = st.mem[a]
            args.append(p)
            if isinstance(p, Ptr) and d["m"]:
                cells.append((p.a, p.p))
        elif d["k"] == "ref":
            if was:
                v = old.get(a)
                if same(ex, d, ex.tys[lty]):
                    args.append(old[("deref", a)])
                else:
                    args.append(Ptr(ex.alloc(st, v)))
            else:
                args.append(Ptr(a))
                if d["m"]:
                    cells.append((a, ()))
        elif was and same(ex, d, ex.tys[lty]):
            args.append(old[a])
        else:
            raise Unsupported("loop contract: type of %s in %s: %s, %s" % (n, f["tname"], d["s"], ex.tys[lty]["s"]))
    return args, cells


def CAPS(f):
    return {}


def fits(ex, d, e):
    return same(ex, d, e) or d["k"] == "ref" and same(ex, ex.tys[d["e"]], e)


def same(ex, d, e):
    if d["k"] != e["k"]:
        return False
    return d["s"] == e["s"] or d["s"].rsplit("::", 1)[-1] == e["s"].rsplit("::", 1)[-1]


def at_head(ex, st, fr):
    bb = fr.bb
    phase, k, body, data = fr.loops[bb]
    havoc, inv = st.loopc[fr.fn][k]
    st.ghost = dict(st.ghost)
    st.ghost["loop id"] = (fr.uid, bb)
    if phase == "entry":
        st.ghost["loop mode"] = "entry"
        ex.loops_seen.add((fr.fn, k))
        old = {a: v for a, v in st.mem.items() if a[0] == fr.uid}
        for a, v in list(old.items()):
            if isinstance(v, Ptr) and not v.m:
                try:
                    old[("deref", a)] = Ptr(ex.alloc(st, ex.load(st, v.a, v.p)))
                except Unsupported:
                    pass
        args, _ = params(ex, st, fr, inv, old, bb)
        fr.loops[bb] = ("havoc", k, body, old)
        ex.push(st, inv, args, None, None)
    elif phase == "havoc":
        args, cells = params(ex, st, fr, havoc, data, bb)
        for l in assigned(ex.fns[fr.fn], body):
            st.mem.pop((fr.uid, l), None)
        for a, p in cells:
            if p:
                ex.store(st, a, p, POISON)
            else:
                st.set(a, POISON)
        fr.loops[bb] = ("havocked", k, body, (data, cells, set(a for a in st.mem if a[0] == "heap")))
        ex.push(st, havoc, args, None, None)
    elif phase == "havocked":
        data, cells, heap = data
        st.ghost["loop mode"] = "assume"
        for a, p in cells:
            if ex.load(st, a, p) is POISON:
                raise Unsupported("loop contract: havoc leaves a variable of %s without a value" % ex.fns[fr.fn]["tname"])
        # what the havoc function made is as arbitrary as the variables it put it in
        cells = cells + [(a, ()) for a in st.mem if a[0] == "heap" and a not in heap]
        args, _ = params(ex, st, fr, inv, data, bb)
        fr.loops[bb] = ("assumed", k, body, (data, cells))
        ex.push(st, inv, args, None, None)
    elif phase == "assumed":
        data, cells = data
        ex.loops_in.add((fr.fn, k))
        fr.loops[bb] = ("in", k, body, (data, cells, dict(st.mem)))
    elif phase == "kept":
        st.ghost["loop mode"] = "kept"
        ex.loops_kept.add((fr.fn, k))
        old, cells, snap = data
        args, _ = params(ex, st, fr, inv, old, bb)
        frame(ex, st, fr, snap, cells)
        fr.loops[bb] = ("end", k, body, None)
        ex.push(st, inv, args, None, None)
    elif phase == "end":
        raise PathEnd()


class Poison:
    def __repr__(self):
        return "arbitrary"


POISON = Poison()


def frame(ex, st, fr, snap, cells):
    """only what the havoc function names may have changed"""
    whole = set(a for a, p in cells if not p)
    for a, v in snap.items():
        now = st.mem.get(a)
        if now is v or a in whole:
            continue
        if a not in st.mem:
            continue                 # gone: reading it is an error
        paths = [p for b, p in cells if b == a]
        if not equal(v, now, paths):
            names = ex.fns[fr.fn]["body"]["names"]
            raise Unsupported("loop contract: %s changes in the loop of %s" % (names.get(str(a[1]), a) if a[0] == fr.uid else a, ex.fns[fr.fn]["tname"]))


def equal(v, w, paths, at=()):
    if v is w or at in paths:
        return True
    if isinstance(v, Agg) and isinstance(w, Agg) and v.v == w.v and len(v.f) == len(w.f):
        return all(equal(x, y, paths, at + (i,)) for i, (x, y) in enumerate(zip(v.f, w.f)))
    if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
        return all(equal(x, y, paths, at + (i,)) for i, (x, y) in enumerate(zip(v, w)))
    if isinstance(v, Seq) and isinstance(w, Seq) and len(v.e) == len(w.e):
        return all(equal(x, y, paths, at + (i,)) for i, (x, y) in enumerate(zip(v.e, w.e)))
    if isinstance(v, Iter) and isinstance(w, Iter) and v.k == w.k and len(v.d) == len(w.d):
        return all(x is y or x == y for x, y in zip(v.d, w.d))
    if isinstance(v, Ptr) and isinstance(w, Ptr):
        return v.a == w.a and v.p == w.p and v.m == w.m
    return False
