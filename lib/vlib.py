"""Shared machinery of the checks: builds from /repo's working tree, TLC runs, evidence, verdicts.

Every check is `run(ck)` in /verif/checks/cNN.py.  A check reports through the Check object:
 - ck.violation(what, replay=...) prints the VIOLATION line (unless a known finding matches);
 - ck.finish() writes the evidence file and sets the exit status.
"""
import json, os, sys, re, time, subprocess, tempfile, shutil, threading, random, fnmatch
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (not a verdict on the code)."""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.rng = random.Random(seed * 1000003 + int(re.sub(r"\D", "", pid) or 0))
        self.viol = []
        self.known_hit = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = []
        self.level = "model_checking"
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.replay_dir = os.path.join(VERIF, "replays", pid)
        self.known = load_known(pid)

    # ---- verdicts -------------------------------------------------------
    def violation(self, what, key="", replay=None):
        """what: one-line description. key: stable identification of the failing input/site/history."""
        for k in self.known:
            if key and fnmatch.fnmatchcase(key, k["match"]):
                if k["match"] not in self.known_hit:
                    self.known_hit.append(k["match"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        self.viol.append((what, key))
        if len(self.viol) <= 20:
            os.makedirs(self.replay_dir, exist_ok=True)
            path = os.path.join(self.replay_dir, "%03d" % len(self.viol))
            shutil.rmtree(path, ignore_errors=True)
            os.makedirs(path)
            with open(os.path.join(path, "what.txt"), "w") as f:
                f.write("property %s (%s tier, seed %d)\n%s\nkey: %s\n" % (self.pid, self.tier, self.seed, what, key))
            for name, content in (replay or {}).items():
                dst = os.path.join(path, name)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                if isinstance(content, bytes):
                    open(dst, "wb").write(content)
                elif os.path.isfile(str(content)) and len(str(content)) < 4000 and "\n" not in str(content):
                    shutil.copy(content, dst)
                else:
                    open(dst, "w").write(str(content))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            print("  %s" % what[:600], flush=True)

    def note_tlc(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def sample(self, s):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append(s)

    def traces(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov.update(self.extra)
        if not cov["samples"]:
            cov["samples"] = ["(none recorded)"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s: %s, %d violation(s), %.1f s; %s" % (
            self.pid, "FAIL" if self.viol else "ok", len(self.viol), wall,
            {k: v for k, v in cov.items() if k != "samples" and not isinstance(v, (list, dict))}), flush=True)
        return 1 if self.viol else 0


def load_known(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "what": m.group(3)})
    return res


# ---------------------------------------------------------------- building
ENGINE_FLAGS = ["-std=c++20", "-w", "-DNDEBUG", "-I" + os.path.join(VERIF, "shim")] + \
    ["-I" + os.path.join(REPO, d) for d in ("c++", "c++/symmetry", "c++/symmetry/coefnew", "c++/include", "tools")] + \
    ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
     "-DFMT_HEADER_ONLY", "-DNRG_SYM_BASIC", "-DNRG_SYM_MORE", "-DNRG_SYM_ALL"]
ENGINE_LIBS = ["-lboost_mpi", "-lboost_serialization", "-lmpi", "-lmpi_cxx", "-lopenblas", "-lgmp", "-ldl", "-lpthread"]


def _cc(name="g++"):
    if os.environ.get("VERIF_CCACHE_DIR"):
        os.environ["CCACHE_DIR"] = os.environ["VERIF_CCACHE_DIR"]
        os.environ["CCACHE_SLOPPINESS"] = "time_macros"
        return ["ccache", name]
    return [name]


def sh(cmd, cwd=None, env=None, timeout=600, input=None, check=False):
    e = dict(os.environ)
    e.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C",
              "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1"})
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, input=input,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, shell=isinstance(cmd, str))
    except subprocess.TimeoutExpired as ex:
        class R: pass
        r = R(); r.returncode = -999; r.stdout = (ex.stdout or b""); r.stderr = (ex.stderr or b"") + b"\n[timeout]"
        p = r
    if check and p.returncode != 0:
        raise CheckError("command failed (%s): %s\n%s\n%s" % (
            p.returncode, cmd, p.stdout[-2000:].decode(errors="replace"), p.stderr[-4000:].decode(errors="replace")))
    return p


def compile_one(src, obj, flags, cc=None):
    p = sh((cc or _cc()) + flags + ["-c", src, "-o", obj], timeout=850)
    if p.returncode != 0:
        raise CheckError("compilation of %s failed:\n%s" % (src, p.stderr[-6000:].decode(errors="replace")))


def par(fn, items, n=NCPU):
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))


# roughly decreasing compile time, so that the long ones start first
_ORDER = ["nrg-lib", "QS", "SPSU2T", "QST", "QSC3", "QJ", "SPSU2C3", "QSTZ", "SPSU2", "ISO", "QSTZ", "ISOLR", "QSZTZ", "U1"]
ALL_SYMS = ["DBLISOSZ", "DBLQSZ", "DBLSU2", "ISO", "ISOLR", "ISOSZ", "ISOSZLR", "NONE", "P", "PP", "QJ", "QS", "QSC3", "QSLR",
            "QST", "QSTZ", "QSZ", "QSZLR", "QSZTZ", "SL", "SL3", "SPSU2", "SPSU2C3", "SPSU2LR", "SPSU2T", "SPU1", "SPU1LR", "SU2", "U1"]


def build_engine(outdir, syms=None, extra_flags=(), opt="-O0", main=True, extra_srcs=(), libs=()):
    """Build the nrg executable from /repo/c++ (all symmetry translation units, or only those given).

    clang with a precompiled header: the complete engine takes about 40 s on eight cores."""
    os.makedirs(outdir, exist_ok=True)
    syms = ALL_SYMS if syms is None else syms
    names = ["nrg-lib"] + ["sym-" + s for s in syms] + (["nrg"] if main else [])
    names.sort(key=lambda n: _ORDER.index(n.replace("sym-", "")) if n.replace("sym-", "") in _ORDER else 99)
    flags = [opt] + ENGINE_FLAGS + list(extra_flags)
    cc = _cc("clang++")
    pch = os.path.join(outdir, "pch.hpp")
    open(pch, "w").write('#include "nrg-general.hpp"\n')
    use_pch = []
    if len(syms) > 3 and len(cc) == 1:
        sh(cc + flags + ["-x", "c++-header", pch, "-o", pch + ".pch", "-fpch-instantiate-templates"], check=True)
        use_pch = ["-include-pch", pch + ".pch"]
    jobs = []
    for n in names:
        jobs.append((os.path.join(REPO, "c++", n + ".cc"), os.path.join(outdir, n + ".o"), flags + use_pch, cc))
    for s in extra_srcs:
        jobs.append((s, os.path.join(outdir, os.path.basename(s) + ".o"), flags, cc))
    par(lambda j: compile_one(*j), jobs)
    exe = os.path.join(outdir, "nrg")
    link = ["clang++", "-o", exe] + [j[1] for j in jobs] + ["-Wl,--no-demangle"] + list(libs) + ENGINE_LIBS
    p = sh(link)
    if p.returncode != 0:
        # symmetry types left out of this build: their symbols resolve to null (never called)
        und = sorted(set(re.findall(r"undefined reference to [`']?([A-Za-z0-9_.$]+)", p.stderr.decode(errors="replace"))))
        if not und or len(syms) == len(ALL_SYMS):
            raise CheckError("link failed:\n" + p.stderr.decode(errors="replace")[-5000:])
        bad = [u for u in und if "3NRG" not in u]
        if bad: raise CheckError("link failed, undefined: %s" % bad[:5])
        sh(link + ["-Wl,--defsym=%s=0" % u for u in und], check=True)
    return exe


TOOLS = {  # name -> (sources, libs) relative to /repo/tools
    "adapt": (["adapt/adapt.cc"], []), "binavg": (["binavg/binavg.cc"], []), "bw": (["bw/bw.cc"], []),
    "broaden": (["broaden/broaden.cc"], []), "resample": (["resample/resample.cc"], ["-lgsl", "-lgslcblas"]),
    "diag": (["diag/diag.cc"], ["-lopenblas"]), "hilb": (["hilb/hilb.cc"], ["-lgsl", "-lgslcblas"]),
    "intavg": (["intavg/intavg.cc"], []), "integ": (["integ/integ.cc"], ["-lgsl", "-lgslcblas"]),
    "kk": (["kk/kk.cc"], ["-lgsl", "-lgslcblas"]), "mats": (["mats/mats.cc"], []),
    "matrix": (["matrix/parser.cc", "matrix/matrix.cc"], ["-lgsl", "-lgslcblas"]),
    "nrgchain": (["nrgchain/nrgchain.cc"], ["-lgmp", "-lgmpxx"]),
    "specmoments": (["specmoments/specmoments.cc"], []), "tdavg": (["tdavg/tdavg.cc"], []),
    "unitary": (["unitary/unitary.cc"], []), "instantiate": (["instantiate/instantiate.cc"], ["-lopenblas", "-lgsl", "-lgslcblas"]),
}
TOOL_FLAGS = ["-std=c++20", "-w", "-O1", "-DNDEBUG", "-I" + os.path.join(VERIF, "shim"),
              "-I" + os.path.join(REPO, "tools"), "-I" + os.path.join(REPO, "tools/common"), "-I" + os.path.join(REPO, "c++"),
              "-isystem", "/usr/include/eigen3", "-DFMT_HEADER_ONLY"]


def build_tools(outdir, names, extra_flags=()):
    os.makedirs(outdir, exist_ok=True)

    def one(n):
        srcs, libs = TOOLS[n]
        exe = os.path.join(outdir, n)
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(outdir, "%s-%d.o" % (n, i))
            src = os.path.join(REPO, "tools", s)
            compile_one(src, o, TOOL_FLAGS + ["-I" + os.path.dirname(src)] + list(extra_flags))
            objs.append(o)
        sh(["g++", "-o", exe] + objs + libs, check=True)
        return exe
    return dict(zip(names, par(one, names)))


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(ck, module, cfg, extra_modules=None, workers=4, timeout=600, coverage=False, args=(), files=None, heap="3g", props=()):
    """Run TLC on `module` (text or name of a file in spec/) in a scratch dir holding all of spec/."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=ck.tmp)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    if "\n" in module:
        name = re.search(r"-+\s*MODULE\s+(\w+)", module).group(1)
        p = os.path.join(d, name + ".tla")
        open(p, "w").write(module)
    else:
        name = module
    for fn, content in (files or {}).items():
        open(os.path.join(d, fn), "w").write(content)
    open(os.path.join(d, name + ".cfg"), "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:ActiveProcessorCount=%d" % max(2, workers)] + list(props) + \
          ["-cp", JAVA_CP, "tlc2.TLC", "-config", name + ".cfg", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-noGenerateSpecTE"] + (["-coverage", "1"] if coverage else []) + list(args) + [name + ".tla"]
    p = sh(cmd, cwd=d, timeout=timeout)
    r = TlcResult()
    r.out = p.stdout.decode(errors="replace")
    r.err = p.stderr.decode(errors="replace")
    r.rc = p.returncode
    r.dir = d
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", r.out)
    r.generated = int(m[-1][0].replace(",", "")) if m else 0
    r.distinct = int(m[-1][1].replace(",", "")) if m else 0
    r.ok = r.rc == 0 and "No error has been found" in r.out
    ck.note_tlc(r)
    return r


def tlc_must(ck, *a, **kw):
    r = tlc(ck, *a, **kw)
    if not r.ok:
        raise CheckError("TLC reports a problem in the specification itself (rc %s):\n%s\n%s" % (r.rc, r.out[-5000:], r.err[-1500:]))
    return r


# ---- TLA+ value syntax -> Python -------------------------------------------
_tok = re.compile(r'\s*(<<|>>|\|->|:>|@@|[\[\]{}(),]|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_][A-Za-z0-9_]*)')


def tla_parse(s):
    toks = _tok.findall(s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        t = toks[pos[0]]; pos[0] += 1
        return t

    def val():
        t = nxt()
        if t == "<<":
            r = []
            while peek() != ">>":
                r.append(val())
                if peek() == ",": nxt()
            nxt()
            return tuple(r)
        if t == "{":
            r = []
            while peek() != "}":
                r.append(val())
                if peek() == ",": nxt()
            nxt()
            return frozenset(r)
        if t == "[":
            r = {}
            while peek() != "]":
                k = nxt(); assert nxt() == "|->"
                r[k] = val()
                if peek() == ",": nxt()
            nxt()
            return Rec(r)
        if t == "(":
            r = {}
            while True:
                k = val(); assert nxt() == ":>", toks[pos[0]-3:pos[0]+3]
                r[k] = val()
                if peek() == "@@":
                    nxt(); continue
                break
            assert nxt() == ")"
            return Fun(r)
        if t.startswith('"'):
            return json.loads(t)
        if t == "TRUE": return True
        if t == "FALSE": return False
        if re.match(r"-?\d+$", t): return int(t)
        return t
    return val()


class Rec(dict):
    def __hash__(self): return hash(tuple(sorted(self.items(), key=lambda x: x[0])))


class Fun(dict):
    def __hash__(self): return hash(frozenset(self.items()))


def tla(v):
    """Python -> TLA+ text."""
    if v is True: return "TRUE"
    if v is False: return "FALSE"
    if isinstance(v, int): return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, dict): return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def dump_states(r):
    """Parse a `-dump states` file: yields dicts var -> python value."""
    fn = os.path.join(r.dir, "states.dump")
    cur = None
    for block in re.split(r"\n\s*\n|(?=^State \d+:)", open(fn).read(), flags=re.M):
        vs = re.split(r"^\s*/\\ (?=\w+ = )", block, flags=re.M)
        st = {}
        if len(vs) == 1 and re.search(r"^\w+ = ", block, flags=re.M):
            vs = ["", re.sub(r"^State \d+:.*\n", "", block)]
        for v in vs[1:]:
            k, _, t = v.partition(" = ")
            st[k.strip()] = tla_parse(t)
        if st:
            yield st


def json_out(r, name):
    return json.load(open(os.path.join(r.dir, name)))


# ---------------------------------------------------------------- misc
def close(a, b, tol=1e-8, rel=1e-8):
    return abs(a - b) <= tol + rel * max(abs(a), abs(b))


def main(pid, tier):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = __import__(pid.lower())
    ck = Check(pid, tier, seed)
    try:
        mod.run(ck)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), file=sys.stderr)
        shutil.rmtree(ck.tmp, ignore_errors=True)
        return 1 if ck.viol else 2
    except Exception:
        import traceback
        traceback.print_exc()
        shutil.rmtree(ck.tmp, ignore_errors=True)
        return 1 if ck.viol else 2
    return ck.finish()
