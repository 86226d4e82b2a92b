"""Verify a set of harnesses: symbolic execution of the exported MIR, discharge, counterexample replay, native stand-in."""
import json, multiprocessing as mp, os, signal, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, symex, prove
import terms as t

MP = mp.get_context("fork")


class Opts:
    ms = 8000            # per obligation
    symex_s = 150        # per harness
    hard_s = 420         # per harness, everything
    total_s = 540        # all harnesses of a property
    workers = 8
    search_ms = 4000
    search_n = 200000
    verbose = False


def child_prove(items, q, ms):
    for k, (pc, goal, refute) in items:
        t0 = time.time()
        try:
            r = prove.prove(pc, goal, ms, refute)
            if r[0] == "refuted":
                m = nicer(pc, goal if refute is None else None, refute, ms)
                if m is not None:
                    r = ("refuted", r[1], m)
        except Exception as e:
            r = ("unknown", "error: %r" % e, None)
        m = r[2]
        if m is not None:
            m = dict((a, str(b) if b is not None else None) for a, b in m.items())
        q.send((k, (r[0], r[1], m), time.time() - t0))
    q.send(None)
    q.close()


def nicer(pc, goal, refute, ms):
    """a counterexample with moderate values is more likely to survive rounding"""
    rf = refute if refute is not None else t.bnot(goal)
    vs = [v for v in t.subterms(list(pc) + [rf]) if v.op == "var" and v.args[0] != "pi"]
    for lo, hi in ((None, 8), (None, 1000)):
        ex = []
        for v in vs:
            if v.isint:
                ex.append(t.le(t.absv(v), t.num(hi)))
            else:
                ex += [t.le(v, t.num(hi)), t.le(t.num(-hi), v)]
        r, m = prove.z3check(list(pc) + [rf] + ex, min(ms, 3000), True)
        if r == "sat" and m is not None:
            return m
    return None


def harness_main(mir, name, root, opts, conn):
    os.setpgid(0, 0)
    t0 = time.time()
    res = {"name": name, "obl": [], "unsupported": None}
    lim = symex.Limits()
    lim.seconds = opts.symex_s
    ex = symex.Exec(mir, lim, prove)
    try:
        try:
            ex.run(root)
        except symex.Unsupported as e:
            res["unsupported"] = str(e)[:300]
        except RecursionError:
            res["unsupported"] = "recursion"
        except Exception as e:
            res["unsupported"] = "internal: %r %s" % (e, traceback.format_exc()[-600:])
        res.update(paths=ex.ends if hasattr(ex, "ends") else ex.paths, steps=ex.steps, symex_s=time.time() - t0, nz3=ex.nz3, feas_s=ex.tz3,
                   called=sorted(set(ex.fns[i]["name"] for i in ex.called if ex.fns[i]["name"].startswith("pt::") or "pt::" in ex.fns[i]["name"])),
                   models=sorted(ex.models_used))
        # loop contracts that the code no longer has the shape for: nothing that is refuted below them is about the code
        res["shape_lost"] = ex.loops_set and (bool(ex.stubs_set - ex.stubs_hit) or (res["unsupported"] or "").startswith("loop contract"))
        # de-duplicate
        todo, seen = [], {}
        out = []
        for (label, pc, goal, refute, kind, inputs, where) in ex.obls:
            key = (label, frozenset(pc), goal)
            if key in seen:
                continue
            seen[key] = len(out)
            out.append({"label": label, "kind": kind, "where": where, "inputs": inputs, "pc": pc, "goal": goal, "refute": refute, "v": None, "s": 0.0})
            if goal is t.TRUE or goal in pc:
                out[-1]["v"] = ("proved", "syntactic", None)
            else:
                todo.append(len(out) - 1)
        pending = list(todo)
        running = []
        deadline = t0 + opts.hard_s
        stopped = False
        refuted_labels, unknown_labels = {}, {}
        while pending or running:
            while pending and len(running) < opts.par and not stopped:
                chunk = []
                n = max(1, min(12, len(pending) // opts.par))
                while pending and len(chunk) < n:
                    k = pending.pop(0)
                    # one counterexample per label is enough
                    if refuted_labels.get(out[k]["label"], 0) >= 2 or unknown_labels.get(out[k]["label"], 0) >= 4:
                        out[k]["v"] = ("skipped", "label already refuted or beyond reach", None)
                        continue
                    chunk.append(k)
                if not chunk:
                    continue
                a, b = MP.Pipe(False)
                p = MP.Process(target=child_prove, args=([(k, (out[k]["pc"], out[k]["goal"], out[k]["refute"])) for k in chunk], b, opts.ms))
                p.start()
                b.close()
                running.append([p, a, chunk, time.time()])
            if stopped and not running:
                break
            for r in list(running):
                p, a, chunk, ts = r
                try:
                    while a.poll(0.01):
                        msg = a.recv()
                        if msg is None:
                            chunk = []
                            break
                        k, v, s = msg
                        out[k]["v"], out[k]["s"] = v, s
                        r[3] = time.time()
                        if v[0] == "refuted":
                            refuted_labels[out[k]["label"]] = refuted_labels.get(out[k]["label"], 0) + 1
                        if v[0] == "unknown":
                            unknown_labels[out[k]["label"]] = unknown_labels.get(out[k]["label"], 0) + 1
                        chunk.remove(k)
                except EOFError:
                    if chunk:
                        k = chunk.pop(0)
                        out[k]["v"] = ("unknown", "prover died", None)
                        pending = chunk + pending
                        chunk = []
                if not chunk:
                    p.join(1)
                    if p.is_alive():
                        p.kill()
                    running.remove(r)
                elif time.time() - r[3] > opts.ms / 1000.0 * 2.5 + 3:
                    p.kill()
                    p.join()
                    k = chunk.pop(0)
                    out[k]["v"] = ("unknown", "prover timeout", None)
                    unknown_labels[out[k]["label"]] = unknown_labels.get(out[k]["label"], 0) + 1
                    pending = chunk + pending
                    running.remove(r)
            if time.time() > deadline and not stopped:
                stopped = True
                for r in running:
                    r[0].kill()
                running = []
                break
        for o in out:
            if o["v"] is None:
                o["v"] = ("unknown", "budget", None)
            v = o["v"]
            e = {"label": o["label"], "kind": o["kind"], "where": o["where"], "verdict": v[0], "how": v[1], "s": round(o["s"], 3)}
            if v[0] == "refuted":
                e["replay"] = replay_values(o["inputs"], v[2] or {})
                e["genuine"] = genuine(o, v[2] or {})
                e["goal"] = t.show(o["goal"])[:600]
                e["pc"] = [t.show(p)[:200] for p in o["pc"]][:30]
            elif v[0] == "unknown" and opts.verbose:
                e["goal"] = t.show(o["goal"])[:1500]
                e["pc"] = [t.show(p)[:300] for p in o["pc"]][:40]
            res["obl"].append(e)
    except Exception as e:
        res["unsupported"] = "internal: %r %s" % (e, traceback.format_exc()[-800:])
    res["s"] = time.time() - t0
    conn.send(json.dumps(res))
    conn.close()


def num_of(m, name):
    v = m.get(name)
    if v is None or v == "None":
        return None
    if v in ("True", "False"):
        return 1.0 if v == "True" else 0.0
    from fractions import Fraction as Fr
    f = Fr(v)
    try:
        return float(f)
    except OverflowError:
        return None


def replay_values(inputs, m):
    out = []
    # forked case variables are boolean; concrete inputs are kept as they are
    for kind, v in inputs:
        if isinstance(v, symex.Sp):
            out.append(v.n)
        elif v.op == "num":
            out.append(float(v.args[0]))
        elif v.op == "bvar":
            x = num_of(m, v.args[0])
            out.append(1.0 if x else 0.0)
        else:
            x = num_of(m, v.args[0])
            out.append(0.5 if x is None else x)
    return out


def genuine(o, m):
    """does the model really falsify the obligation when every function has its real meaning?"""
    env = {}
    for k in m:
        x = num_of(m, k)
        if x is not None:
            env[k] = x
    memo = {}
    sub = t.subterms(list(o["pc"]) + [o["goal"]])
    if any(y.op in ("ufn", "ufb") for y in sub):
        # an uninterpreted function may be anything; special functions may not
        return not any(y.op == "fn" and y.args[0] != "sqrt" for y in sub)
    try:
        for p in o["pc"]:
            if p.op == "bvar" or p.op == "not" and p.args[0].op == "bvar":
                continue
            if p.op == "eq0":
                if abs(t.evalf(p.args[0], env, memo)) > 1e-6:
                    return False
            elif p.op in ("le0", "lt0"):
                if t.evalf(p.args[0], env, memo) > 1e-9:
                    return False
            elif not t.evalf(p, env, memo):
                return False
        rf = o["refute"]
        if rf is not None:
            return bool(t.evalf(rf, env, memo))
        g = o["goal"]
        if g is t.FALSE:
            return True
        if g.op == "le0" or g.op == "lt0":
            return t.evalf(g.args[0], env, memo) > 1e-9
        return not t.evalf(g, env, memo)
    except (t.Undefd, OverflowError, KeyError):
        return False


def verify(mir, opts, names=None):
    """-> list of harness results"""
    jobs = []
    for full, root in mir["roots"]:
        n = full.rsplit("::", 1)[1]
        if names is None or n in names:
            jobs.append((n, root))
    opts.par = max(1, opts.workers // max(1, min(len(jobs), opts.workers))) if len(jobs) < opts.workers else 2
    results, running = {}, []
    jobs.reverse()
    t0 = time.time()
    while jobs or running:
        late = time.time() - t0 > opts.total_s
        while late and jobs:
            n, root = jobs.pop()
            results[n] = {"name": n, "obl": [], "unsupported": "out of time"}
        while jobs and len(running) < opts.workers:
            n, root = jobs.pop()
            a, b = MP.Pipe(False)
            p = MP.Process(target=harness_main, args=(mir, n, root, opts, b))
            p.start()
            b.close()
            running.append((p, a, n, time.time()))
        time.sleep(0.02)
        for r in list(running):
            p, a, n, ts = r
            got = None
            try:
                if a.poll(0):
                    got = json.loads(a.recv())
            except EOFError:
                got = {"name": n, "obl": [], "unsupported": "verifier process died"}
            if got is None and late:
                got = {"name": n, "obl": [], "unsupported": "out of time"}
            if got is None and time.time() - ts > opts.hard_s + 60:
                got = {"name": n, "obl": [], "unsupported": "verifier hung"}
            if got is not None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join(2)
                results[n] = got
                running.remove(r)
    return results


def native(binary, args, timeout):
    try:
        r = subprocess.run([binary] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"code": 2, "fails": ["does not terminate within %ds" % timeout], "log": [], "hang": True}
    try:
        return json.loads(r.stdout)
    except ValueError:
        return {"code": 2, "fails": ["process died: rc %s %s" % (r.returncode, r.stderr[-200:])], "log": [], "died": True}
