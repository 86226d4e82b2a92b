"""Assemble a scratch copy of /repo with the contract harnesses appended, export its MIR, build the native runner."""
import json, os, re, shutil, subprocess, sys, tempfile, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PTV_REPO", "/repo")

ENV = dict(os.environ)
ENV.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0"})
ENV["PATH"] = ENV.get("PATH", "") + ":/root/.cargo/bin"

# callee def path -> local model function (same generic arguments)
REDIRECT = {
    "std::iter::Iterator::fold": "pt::ptv::m_fold", "std::iter::Iterator::any": "pt::ptv::m_any", "std::iter::Iterator::all": "pt::ptv::m_all",
    "std::iter::Iterator::for_each": "pt::ptv::m_for_each", "std::iter::Iterator::find": "pt::ptv::m_find",
    "std::iter::Iterator::position": "pt::ptv::m_position", "std::thread::spawn": "pt::ptv::m_spawn", "std::iter::Iterator::count": "pt::ptv::m_count",
}
# library functions whose own MIR is executed instead of being modelled
ALLOW = ["std::option::Option", "core::option::Option", "<std::option::Option", "std::result::Result", "<std::result::Result",
         "std::mem::swap", "std::mem::replace", "std::mem::take",
         "*as std::ops::Fn", "std::cmp::", "*std::cmp::PartialOrd", "*std::cmp::PartialEq", "*std::cmp::Ord", "<std::cmp",
         "<std::iter::Map", "<std::iter::Enumerate", "<std::iter::Zip", "<std::iter::Rev", "<std::iter::Filter", "<std::iter::Take", "<std::iter::Skip",
         "<std::iter::Cloned", "<std::iter::Copied", "<std::iter::Chain", "std::ops::Range", "std::array::", "<std::array",
         "std::iter::Iterator::map", "std::iter::Iterator::enumerate", "std::iter::Iterator::zip", "std::iter::Iterator::rev", "std::iter::Iterator::filter",
         "std::iter::Iterator::take", "std::iter::Iterator::skip", "std::iter::Iterator::cloned", "std::iter::Iterator::copied", "std::iter::Iterator::chain",
         "std::bool::", "core::bool::", "*as std::convert::From", "*as std::convert::Into", "std::convert::", "*as std::default::Default",
         "*as std::clone::Clone", "*impl std::default::Default for ("]


class BuildError(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix="ptv_", dir=os.environ.get("PTV_TMP", "/tmp"))
    if not os.environ.get("PTV_KEEP"):
        atexit.register(shutil.rmtree, d, True)
    return d


def exporter(d):
    """build the MIR exporter (cached beside the sources when that is writable)"""
    src = os.path.join(VERIF, "exporter", "src", "main.rs")
    cache = os.path.join(VERIF, "build", "mx")
    if os.path.exists(cache) and os.path.getmtime(cache) >= os.path.getmtime(src):
        return cache
    out = os.path.join(d, "mx")
    r = subprocess.run(["rustc", "+nightly", src, "--edition", "2021", "-o", out, "-Copt-level=1"], env=ENV, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("exporter: " + "\n".join(l for l in r.stderr.splitlines() if not l.lstrip().startswith(("at ","1","2")))[:3000])
    try:
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        shutil.copy(out, cache + ".tmp%d" % os.getpid())
        os.rename(cache + ".tmp%d" % os.getpid(), cache)
    except OSError:
        pass
    return out


FN = re.compile(r"^(?:pub )?fn (h_\w+)\(\) *\{", re.M)


NA = re.compile(r"native_assume\((.*)\);")


def presub(text):
    """the arguments of native_assume are not evaluated under the prover"""
    return "\n".join(NA.sub(r"if !symbolic() { native_assume(\1); }", l) if "native_assume(" in l and "fn native_assume" not in l else l for l in text.split("\n"))


def split_spec(text):
    """split a spec file into top-level items: list of (harness name or None, text)"""
    text = re.sub(r"(?m)^( *)///", r"\1//", presub(text))
    out, head = [], []
    for l in text.split("\n"):
        if l[:1] in ("", " ", "\t", "}", ")", "]") and out and not head:
            out[-1].append(l)
        elif l[:1] in ("", "#", "/"):
            head.append(l)            # attributes and comments go with the item that follows
        else:
            out.append(head + [l])
            head = []
    if head:
        out.append(head)
    res = []
    for ls in out:
        t = "\n".join(ls)
        m = re.match(r"use ([\w:]+)::\{([^{}]*)\};\s*$", t)
        if m:
            res += [(None, "use %s::%s;" % (m.group(1), x.strip())) for x in m.group(2).split(",")]
            continue
        m = FN.search(t)
        res.append((m.group(1) if m else None, t))
    return res


# every spec module sees the public items of these, whatever the file it is put into imports
GLOBS = ["axis", "bbox", "bxdf_lambertian_reflection", "bxdf_microfacet_reflection", "bxdf_microfacet_transmission", "bxdf_specular_reflection", "bxdf_specular_transmission",
         "camera", "common", "container", "film", "filter", "fresnel", "interaction", "light", "material", "matrix", "microfacet", "ray", "reflection", "sampler", "sampling", "scene",
         "shape", "spectrum", "texture", "transform", "vector"]


class Crate:
    """scratch copy of the crate + specs.  lost: harnesses that no longer compile against the current source."""

    kani = False

    def __init__(self, only=None, d=None):
        self.d = d or scratch()
        self.dir = os.path.join(self.d, "pt")
        os.makedirs(self.dir)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(self.dir, "src"))
        for f in ("Cargo.toml", "Cargo.lock"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, self.dir)
        self.only = only            # predicate on harness names
        self.lost = {}
        self.gone = {}             # (module, item): why an item of a spec file that is no harness had to go
        self.specs = {}
        sd = os.path.join(VERIF, "spec")
        for f in sorted(os.listdir(sd)):
            if f.endswith(".rs") and f not in ("ptv.rs", "ptv_kani.rs"):
                self.specs[f[:-3]] = split_spec(open(os.path.join(sd, f)).read())
        self.orig = {}
        for m in self.specs:
            p = os.path.join(self.dir, "src", m + ".rs")
            if os.path.exists(p):
                self.orig[m] = open(p).read()
        self.lib = open(os.path.join(self.dir, "src", "lib.rs")).read()
        self.harnesses = []

    def assemble(self):
        src = os.path.join(self.dir, "src")
        shutil.copy(os.path.join(VERIF, "spec", "ptv_kani.rs" if self.kani else "ptv.rs"), os.path.join(src, "ptv.rs"))
        proofs = []
        self.harnesses = []
        self.where = {}   # file -> list of (startline, endline, harness)
        table = []
        for m, parts in self.specs.items():
            if m not in self.orig:
                for n, _ in parts:
                    if n:
                        self.lost.setdefault(n, "module %s is gone" % m)
                continue
            t = self.orig[m] + "\n#[allow(dead_code, unused_imports, unused_variables, unused_mut, unused_assignments, bare_trait_objects)]\npub mod ptv_spec {\nuse super::*;\nuse ptv::*;\nuse ptv::pre::*;\n" + "".join("use %s::*;\n" % g for g in GLOBS if g != m and os.path.exists(os.path.join(src, g + ".rs")))
            spans = []
            for k, (n, body) in enumerate(parts):
                if n and (n in self.lost or (self.only and not self.only(n))) or (m, k) in self.gone:
                    continue
                s = t.count("\n") + 1
                t += body + "\n"
                if n:
                    spans.append((s, t.count("\n"), n, (m, k)))
                    self.harnesses.append(n)
                    u = re.search(r"unwind (\d+)", body)
                    proofs.append("#[kani::proof] #[kani::unwind(%s)] fn %s() { ::%s::ptv_spec::%s() }" % (u.group(1) if u else 34, n, m, n))
                    table.append("(\"%s\", ::%s::ptv_spec::%s as fn())" % (n, m, n))
                else:
                    spans.append((s, t.count("\n"), None, (m, k)))
            t += "}\n"
            open(os.path.join(src, m + ".rs"), "w").write(t)
            self.where["src/" + m + ".rs"] = spans
        # the allow() must precede inner module code, so harness files that start with `use` are fine
        lib = self.lib + "\n#[allow(bare_trait_objects, dead_code)] pub mod ptv;\npub mod ptv_table { pub const TABLE: &'static [(&'static str, fn())] = &[%s]; }\n" % ",\n".join(table)
        if self.kani:
            lib = self.lib + "\n#[allow(bare_trait_objects, dead_code, unused)] pub mod ptv;\n#[cfg(kani)] extern crate kani;\n#[cfg(kani)] mod ptv_proofs { use kani;\n%s\n}\n" % "\n".join(proofs)
            open(os.path.join(src, "lib.rs"), "w").write(lib)
            return
        open(os.path.join(src, "lib.rs"), "w").write(lib)
        os.makedirs(os.path.join(src, "bin"), exist_ok=True)
        open(os.path.join(src, "bin", "ptvrun.rs"), "w").write("extern crate pt;\nfn main() { pt::ptv::main(pt::ptv_table::TABLE); }\n")

    def cargo(self, args, env=None, tdir="t"):
        e = dict(ENV)
        e["CARGO_TARGET_DIR"] = os.path.join(self.d, tdir)
        e.update(env or {})
        return subprocess.run(["cargo", "+nightly"] + args + ["--message-format=json"], cwd=self.dir, env=e, capture_output=True, text=True)

    def blame(self, r):
        """items of the spec files that the compile errors point into: {(module, item): (harness or None, message)}"""
        bad, msgs = {}, []
        for l in r.stdout.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            m = j.get("message") or {}
            if m.get("level") != "error":
                continue
            msg = m.get("rendered") or m.get("message")
            msgs.append(msg)
            if (m.get("code") or {}).get("code") == "E0063" and self.extend(m):
                continue
            spans = list(m.get("spans", []))
            groups = [[x for x in spans if x.get("is_primary")], spans + [x for c in m.get("children", []) for x in c.get("spans", [])]]
            for g in groups:
                hit = False
                for exp in g:
                    at = None
                    while exp:      # the outermost place: where a macro is used
                        for (s, e, n, k) in self.where.get(exp["file_name"], []):
                            if s <= exp["line_start"] <= e:
                                at = (n, k)
                        exp = (exp.get("expansion") or {}).get("span")
                    if at:
                        bad.setdefault(at[1], (at[0], msg))
                        hit = True
                if hit:
                    break
        return bad, msgs

    def extend(self, m):
        """a struct of the source has fields that a literal of it in a spec file does not give: they get their type's default"""
        names = re.findall(r"`(\w+)`", m["message"].split(" in initializer")[0])
        done = False
        for x in m.get("spans", []):
            if not x.get("is_primary") or x.get("expansion"):
                continue
            for (s, e, n, (mod, k)) in self.where.get(x["file_name"], []):
                if s <= x["line_end"] <= e and names:
                    body = self.specs[mod][k][1].split("\n")
                    i = x["line_end"] - s
                    at = body[i].find("{", x["column_end"] - 1)
                    if at >= 0:
                        self.patches.append((mod, k, i, at + 1, " " + "".join("%s: ::std::default::Default::default(), " % f for f in names)))
                        done = True
        return done

    def build(self, what):
        """what: 'mir' or 'native'; retries without harnesses that no longer compile"""
        for _ in range(25):
            self.assemble()
            if what == "mir":
                out = os.path.join(self.d, "mir.json")
                if os.path.exists(out):
                    os.unlink(out)
                mx = exporter(self.d)
                sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=ENV, capture_output=True, text=True).stdout.strip()
                env = {"RUSTC_WORKSPACE_WRAPPER": mx, "PTV_OUT": out, "PTV_ALLOW": "\n".join(ALLOW), "LD_LIBRARY_PATH": sysroot + "/lib",
                       "PTV_REDIRECT": "\n".join("%s %s" % kv for kv in REDIRECT.items()), "RUSTFLAGS": "-Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -Awarnings"}
                r = self.cargo(["rustc", "--lib", "--profile", "dev"], env, "tm")
                if os.path.exists(out):
                    return json.load(open(out))
            else:
                r = self.cargo(["build", "--bin", "ptvrun"], {"RUSTFLAGS": "-Awarnings", "CARGO_PROFILE_DEV_OPT_LEVEL": "1"})
                if r.returncode == 0:
                    return os.path.join(self.d, "t", "debug", "ptvrun")
            self.patches = []
            bad, msgs = self.blame(r)
            for mod, k, i, at, text in sorted(set(self.patches), reverse=True):      # from the end, so that places stay right
                n, body = self.specs[mod][k]
                body = body.split("\n")
                body[i] = body[i][:at] + text + body[i][at:]
                self.specs[mod][k] = (n, "\n".join(body))
            if not bad and not self.patches:
                raise BuildError("%s\n%s" % ("\n".join(m for m in msgs if m)[-4000:], "\n".join(l for l in r.stderr.splitlines() if not l.lstrip().startswith(("at ", "1", "2")))[:3000]))
            for k, (n, msg) in bad.items():
                if n:
                    self.lost[n] = "does not compile against the current source: " + (msg or "")[:400]
                else:
                    self.gone[k] = (msg or "")[:400]
        raise BuildError("too many rounds")
