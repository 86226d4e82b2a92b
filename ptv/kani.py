"""Bit-precise obligations: harnesses named h_*_kani_* are discharged by Kani (CBMC) on the same scratch copy of the crate."""
import os, re, signal, struct, subprocess, time
import build


def decode(vals):
    """bytes of kani::any values, in order of the calls -> inputs for replay"""
    out = []
    for v in vals:
        b = bytes(v)
        if len(b) == 4:
            out.append(struct.unpack("<f", b)[0])
        elif len(b) == 8:
            out.append(float(struct.unpack("<q", b)[0]))
        else:
            out.append(float(int.from_bytes(b, "little")))
    return out


def run(names, c0, tier):
    """-> {harness: result in the form of run.verify}"""
    t0 = time.time()
    c = build.Crate(only=lambda n: n in names)
    c.kani = True
    lost = c.lost = dict(c0.lost)
    c.gone, c.specs = dict(c0.gone), c0.specs      # what had to go for the MIR build
    c.assemble()
    limit = 600 if tier == "quick" else 800
    env = dict(build.ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(c.d, "tk")
    args = ["cargo", "kani", "-Z", "concrete-playback", "--concrete-playback=print", "-j", "4", "--output-format=terse"]
    # concrete playback needs one harness at a time
    args = ["cargo", "kani", "-j", "6", "--output-format=terse", "--harness-timeout", "%ds" % (limit // 2), "-Z", "unstable-options"]
    p = subprocess.Popen(args, cwd=c.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
    res = {}
    log = {}
    cur = {}
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            cur[m.group(1)] = m.group(2).rsplit("::", 1)[1]
        m2 = re.match(r"Thread (\d+):", l)
        if m2:
            last = m2.group(1)
        elif m:
            last = None
        if cur:
            log.setdefault(cur.get(last if 'last' in dir() else None), []).append(l)
    for n in names:
        if n in lost:
            continue
        text = "\n".join(log.get(n, []))
        r = {"name": n, "obl": [], "unsupported": None, "paths": None, "s": 0.0, "called": [], "models": ["kani"]}
        if "VERIFICATION:- SUCCESSFUL" in text:
            m = re.search(r"Verification Time: ([\d.]+)s", text)
            r["s"] = float(m.group(1)) if m else 0
            k = re.search(r"\*\* 0 of (\d+) failed", text)
            cnt = int(k.group(1)) if k else 1
            r["obl"] = [{"label": "bit-precise obligations", "kind": "kani", "where": n, "verdict": "proved", "how": "kani-cbmc", "s": r["s"] / cnt} for _ in range(cnt)]
        elif "VERIFICATION:- FAILED" in text and "Failed Checks:" in text and "unwinding assertion" not in text:
            fails = re.findall(r"Failed Checks: (.*)", text)
            vals = playback(c, n, env)
            r["obl"] = [{"label": fails[0], "kind": "kani", "where": n, "verdict": "refuted" if vals is not None else "unknown", "how": "kani-cbmc", "s": 0.0, "replay": vals or [], "genuine": vals is not None, "goal": "; ".join(fails), "pc": []}]
        else:
            r["unsupported"] = "kani gave no verdict: " + (text or out)[-1500:]
        res[n] = r
    return res


def playback(c, n, env):
    try:
        o = subprocess.run(["cargo", "kani", "-Z", "concrete-playback", "--concrete-playback=print", "--harness", n], cwd=c.dir, env=env, capture_output=True, text=True, timeout=300).stdout
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n *\];", o, re.S)
    if not m:
        return None
    return decode([[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(1))])
