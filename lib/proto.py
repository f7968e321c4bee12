"""Runs of the engine under the file-system recorder, and their judgement by RunTrace.tla (C10-C13)."""
import json, os, random, re, shutil, tempfile
import vlib, eng, oper, c04

FINAL = re.compile(r"(unitary|rho|rhofdm|rhoFDM)\d+$")
DOC = re.compile(r"(annotated\.dat|energies\.nrg|states\.nrg|report\.nrg|custom|customfdm|raw\.h5|raw-dm\.h5|td|tdfdm|absolute_energies\.dat|subspaces\.dat"
                 r"|[a-z0-9]+_[A-Za-z0-9]+_dens_.*\.(bin|dat))$")


def build(ck, syms=("QS", "NONE", "QSZ", "SPSU2")):
    exe = vlib.build_engine(os.path.join(ck.tmp, "eng"), list(syms))
    so = os.path.join(ck.tmp, "iot.so")
    vlib.sh(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(vlib.VERIF, "shim/iotrace/iotrace.c"), "-ldl", "-lpthread"], check=True)
    return exe, so


def scenario(rng, sym="QS", ch=1, N=4, dm=True, remove=True, cplx=None, tag="", **extra):
    s = eng.SYMS[sym]
    seed, ops, corr = c04.operators(rng, s, ch, cplx=bool(cplx))
    par = {"Lambda": 2, "savebins": "true", "broaden": "true", "finite": "true", "ops": "op", "T": 1.0, "dumpannotated": 5, "dumpstates": "true", "dumpenergies": "true",
           "reportdiagonal": 1, "emin": 0.01, "emax": 100, "bins": 50, "broaden_min": 0.05, "broaden_ratio": 1.2, "mats": 4, "finitemats": "true", "gt": "true", "chit": "true"}
    if dm: par.update({"fdm": "true", "cfs": "true", "dmnrg": "true", "fdmmats": "true", "fdmexpv": "true", "fdmexpvn": 0})
    if not remove: par["removefiles"] = "false"
    par.update(c04.requests(s, corr))
    par.update(extra)
    blocks = [("site", [rng.randint(-2, 2)] * (1 if s.same else ch)) for _ in range(N)]
    if s.same: blocks = [(k, v * ch) for k, v in blocks]
    p = c04.Trunc(sym, ch, blocks, seed, ops, 1.0, 5, params=par, cplx=cplx)
    p.label = "%s-%dch%s%s%s%s" % (sym, ch, "-dm" if dm else "", "" if remove else "-keepfiles", "-complex" if cplx else "", tag)
    p.remove, p.dm = remove, dm
    return p


class Run:
    pass


def run(ck, exe, so, p, plan=None, damage=None, prep=None, data=None, param=None, args=(), env=None, where=None, key="", timeout=120, pre=(), marker=True, dmg_input=False, keepdir=False):
    """-> Run with .code, .log (list of fields), .dir, .loc (requested location of the private directory)"""
    r = Run()
    r.p, r.key, r.marker, r.dmg_input = p, key, marker, dmg_input
    base = tempfile.mkdtemp(prefix="r", dir=ck.tmp)
    r.base, r.dir, r.loc = base, os.path.join(base, "run"), where or os.path.join(base, "run")
    os.mkdir(r.dir)
    if data is not False: open(os.path.join(r.dir, "data"), "w").write(p.data() if data is None else data)
    if param is not False: open(os.path.join(r.dir, "param"), "w").write(p.param() if param is None else param)
    if prep: prep(r)
    tmp = tempfile.mkdtemp(prefix="m", dir="/tmp")
    e = {"LD_PRELOAD": so, "IOT_LOG": os.path.join(base, "log"), "IOT_SKIP": tmp, "IOT_ROOT": ck.tmp, "IOT_EXE": "nrg", "TMPDIR": tmp}
    if plan: e["IOT_PLAN"] = plan
    if damage: e["IOT_DAMAGE"] = damage
    e.update(env or {})
    if callable(args): args = args(r)
    for attempt in range(4):
        o = vlib.sh(list(pre) + [exe] + list(args), cwd=r.dir, env=e, timeout=timeout)
        if o.returncode == 0 or b"NRG Ljubljana" in o.stdout: break
        if os.path.exists(e["IOT_LOG"]): os.unlink(e["IOT_LOG"])
    shutil.rmtree(tmp, ignore_errors=True)
    r.code, r.stdout, r.stderr = o.returncode, o.stdout, o.stderr
    r.done = os.path.exists(os.path.join(r.dir, "DONE"))
    r.log = [l.split(" ") for l in open(os.path.join(base, "log"), errors="replace").read().split("\n") if l] if os.path.exists(os.path.join(base, "log")) else []
    events(r)
    return r


def events(r):
    """the log as events of RunProtocol.tla"""
    ev, r.wdirs, w, dmg, done = [], [], None, set(), False
    real = lambda d: os.path.realpath(d)
    D = real(r.dir)

    def cls(p):
        if w and p == w: return "wd"
        if w and p.startswith(w + "/"):
            return "ckpt" if os.path.dirname(p) == w and FINAL.match(os.path.basename(p)) else "temp"
        if os.path.dirname(p) == D:
            b = os.path.basename(p)
            if b == "DONE": return "done"
            if b in ("data", "param"): return "input"
            if DOC.match(b): return "out"
        return "other"
    r.cks = []
    for f in r.log:
        n, op, a = int(f[0]), f[1], f[2:]
        e = {"k": n, "op": op.rstrip("!-"), "p": a[0] if a else "", "q": "", "n": 0, "ok": not op.endswith(("!", "-")), "dmg": False, "cleaning": False, "class": ""}
        if e["op"] == "KILL": continue
        if e["op"] == "damage":
            dmg.add(a[0])
            continue
        if e["op"] == "mkdtemp":
            e["p"] = a[0]
            e["class"] = "wd" if os.path.dirname(a[0]) == real(r.loc) else "other"
            if e["ok"]:
                w = a[0]
                r.wdirs.append(w)
        else: e["class"] = cls(a[0])
        if e["op"] in ("openw", "openr", "opena"):
            if op[-1] != "!" and int(a[2]) != 0: e["ok"] = False
            e["dmg"] = a[0] in dmg or (r.dmg_input and e["class"] == "input" and e["p"].endswith("/data"))
            if e["op"] == "opena": e["op"] = "openw"
            dmg.discard(a[0])
        elif e["op"] == "write":
            e["n"] = int(a[2]) if e["ok"] else 0
            if e["class"] == "other" or not w: pass
        elif e["op"] in ("closew", "closer"):
            if e["op"] == "closer": continue
            e["op"] = "close"
        elif e["op"] in ("rename", "link"):
            e["q"], e["class"] = a[1], cls(a[1])
            if cls(a[0]) == "other": e["class"] = "other"
        elif e["op"] in ("rmdir",): e["op"] = "unlink"
        elif e["op"] == "unlink" and not e["ok"] and a[-1] == "2": continue      # nothing was there
        if e["op"] == "openr" and e["class"] not in ("ckpt", "input"): continue
        if e["op"] == "openw" and not e["ok"] and e["class"] == "other": continue
        if e["class"] == "ckpt" and e["op"] in ("rename", "openw") and e["ok"]: r.cks.append(e["q"] or e["p"])
        ev.append(e)
    # the removal of the private directory: everything after the last operation that is not an unlinking of something in it (closing files aside)
    k = len(ev)
    while k > 0 and ((ev[k-1]["op"] == "unlink" and ev[k-1]["class"] in ("ckpt", "temp", "wd")) or ev[k-1]["op"] == "close"): k -= 1
    if any(e["op"] == "unlink" and e["class"] == "wd" for e in ev[k:]) or r.code != 0:
        for e in ev[k:]: e["cleaning"] = True
    r.full = ev
    out = []
    for e in ev:       # runs of successful writes to one file are one event
        if out and e["op"] == "write" and e["ok"] and out[-1]["op"] == "write" and out[-1]["ok"] and out[-1]["p"] == e["p"]:
            out[-1]["n"] += e["n"]
        else: out.append(dict(e))
    r.events = out
    r.wd = w


def judge(ck, runs, predict=()):
    """TLC's verdicts; predict: [(run, [operation numbers])] -> {run: {k: visible files}}"""
    jobs = []
    probes = {id(r): ks for r, ks in predict}
    for r in runs:
        full = id(r) in probes
        ev = r.full if full else r.events
        idx = {}
        if full:
            for k in probes[id(r)]: idx[k] = sum(1 for e in ev if e["k"] < k)
        rel = lambda p: p.replace(r.base, "")
        jobs.append((r, {"key": r.key, "code": -1 if r.code == -9 else r.code if r.code >= 0 else 1, "marker": r.marker, "remove": r.p.remove, "predict": full, "probe": sorted(set(idx.values())),
                         "ckpts": sorted({rel(x) for x in r.cks}),
                         "events": [dict({k: e[k] for k in ("op", "n", "ok", "dmg", "cleaning", "class")}, p=rel(e["p"]), q=rel(e["q"])) for e in ev]}, idx))
    groups = [jobs[i::vlib.NCPU] for i in range(vlib.NCPU)]
    groups = [g for g in groups if g]

    def one(g):
        t = vlib.tlc_must(ck, "RunTrace", "SPECIFICATION Spec\nINVARIANTS Emit Visible\nCHECK_DEADLOCK FALSE\n", workers=1, timeout=850, files={"runs.json": json.dumps([j[1] for j in g])})
        for k, (r, j, idx) in enumerate(g, 1):
            r.verdict = vlib.json_out(t, "verdict%d.json" % k)
            r.seen = {kk: vlib.json_out(t, "seen%d_%d.json" % (k, i)) for kk, i in idx.items()}
    vlib.par(one, groups)


def design(ck, quick=True):
    """the protocol itself, with faults and crashes everywhere"""
    for dm in ("TRUE", "FALSE"):
        for rm in ("TRUE", "FALSE"):
            vlib.tlc_must(ck, "RunModel", "SPECIFICATION Spec\nCONSTANTS N = %d\n Outs = {\"td\", \"custom\"%s}\n Lates = {\"spec1\", \"spec2\"}\n DM = %s\n Remove = %s\n Faults = 1\n"
                          "INVARIANTS CkAtomic MarkerOnlyIfComplete Terminated Complete NoneLeft Contained AsRequested\nPROPERTY Orderly\nCHECK_DEADLOCK FALSE\n" % (3 if quick else 6, "" if quick else ", \"energies\"", dm, rm), workers=2)


def report(ck, r, what):
    ck.violation(what, "%s:%s" % (r.p.label, r.key), {"data": r.p.data(), "param": r.p.param(), "operations": "\n".join(" ".join(x) for x in r.log[-4000:]),
                 "stdout": r.stdout[-6000:], "stderr": r.stderr[-6000:], "scenario": "%s %s exit %s" % (r.p.label, r.key, r.code)})
