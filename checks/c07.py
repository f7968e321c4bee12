"""C07: partial diagonalisation is repeated until the retained set is that of the complete one (PartialDiag.tla)."""
import json, os, re
import eng, nrgrun, vlib

SYMS = [("QS", 1), ("QS", 2), ("QSZ", 1), ("SPSU2", 1), ("SPSU2", 2), ("ISO", 2), ("U1", 1), ("SPU1", 1), ("NONE", 1), ("P", 1), ("SL", 2)]
DEN = 1 << 20


def inputs(ck):
    rng, res = ck.rng, []
    for rep in range(2 if ck.quick else 20):
        for name, ch in SYMS:
            for v in range(3):
                cplx = v == 2 and name in ("QS", "QSZ", "SPSU2", "U1", "NONE")
                par = dict(rng.choice([{"keep": rng.choice([2, 5, 11, 20, 35])}, {"keep": rng.choice([6, 14]), "safeguard": rng.choice([0.05, 0.3])},
                                       {"keep": 40, "keepenergy": rng.choice([1.3, 2.7, 4.1]), "keepmin": rng.choice([2, 12])},
                                       {"keep": 9, "keepall": rng.choice(["even", "odd", "1"])}, {"keep": 8, "lastall": "true"}]))
                par["absolute"] = rng.choice(["true", "false"])
                par["Lambda"] = rng.choice([2, 3])
                part = {"diag": "zheevr" if cplx else "dsyevr", "diagratio": rng.choice([0.0625, 0.125, 0.25, 0.375, 0.5, 0.75]),
                        "restartfactor": rng.choice([2, 1.5, 1.25, 4])}
                if part["diagratio"] < 0.25 and part["restartfactor"] == 1.25: part["restartfactor"] = 1.5  # all ratios are dyadic: exact in the specification
                if rng.random() < 0.1: part["restart"] = "false"
                N = 4 if ch == 2 else rng.choice([4, 5])
                if name == "NONE": N = 3
                p = nrgrun.random_problem(name, ch, N, rng, params=par, label="%s-%dch-%d-%d" % (name, ch, v, rep), nseed=rng.choice([1, 2, 3]), cplx=cplx)
                res.append((p, part))
    return res


def attempts(stdout):
    """per step: [(ratio, retained)]"""
    res = []
    for part in re.split(r"\*\*\*\*\* \[NRG\] Iteration ", stdout)[1:]:
        ratios = [None] + [float(x) for x in re.findall(r"Restarting this iteration step\. diagratio=(\S+)", part)]
        kept = [int(x) for x in re.findall(r"Cmax=\S+ nrkept=(\d+)", part)]
        res.append(list(zip(ratios, kept)) if len(ratios) == len(kept) else None)
    return res


def levels(path, raw=None):
    raw = raw or nrgrun.read_raw(path)
    g = {}
    for k, v in raw.items():
        m = re.match(r"(\d+)/eigen//([-\d_]+)/(\w+)$", k)
        if m: g.setdefault(int(m.group(1)), {}).setdefault(m.group(2), {})[m.group(3)] = v
    return g, nrgrun.params_of(raw)


def one(ck, exe, item):
    p, part = item
    da, db = os.path.join(ck.tmp, p.label, "full"), os.path.join(ck.tmp, p.label, "part")
    full = eng.run_engine(exe, da, p.data(), p.param(nrgrun.RAW), timeout=240)
    pr = eng.run_engine(exe, db, p.data(), p.param(dict(nrgrun.RAW, **part)), timeout=240)
    if not full.ok or not pr.ok: return None, "the %s run did not complete (exit %s)" % (("full", full.returncode) if not full.ok else ("partial", pr.returncode)), pr, p.param(part)
    fa, par = levels(os.path.join(da, "raw.h5"))
    pa, ppar = levels(os.path.join(db, "raw.h5"))
    att = attempts(pr.stdout.decode(errors="replace"))
    steps, bad = [], None
    tr = nrgrun.trace(p.sym.name, da, full.stdout.decode(errors="replace"))
    for n in range(p.N):
        if n + 1 not in fa or n + 1 not in pa or n >= len(att): bad = "step %d was not recorded" % n; break
        F, P = fa[n + 1], pa[n + 1]
        if set(F) != set(P): bad = "step %d: subspaces %s" % (n, sorted(set(F) ^ set(P))[:4]); break
        if att[n] is None: raise vlib.CheckError("attempts of step %d of %s not recognised" % (n, p.label))
        # computed levels have the same energies
        for lab in F:
            x, y = [float(v) for v in F[lab]["value_orig"]], [float(v) for v in P[lab]["value_orig"]]
            if any(abs(u - w) > 1e-7 * max(1, abs(u)) for u, w in zip(x, y)) or len(y) > len(x):
                bad = "step %d: levels of subspace %s differ from complete diagonalisation" % (n, lab)
        if bad: break
        s = tr["steps"][n]
        labs = sorted(F, key=nrgrun.name2lab)
        es = [next(q["es"] for q in s["subs"] if tuple(q["c"]) == nrgrun.unlab(p.sym, nrgrun.name2lab(l))) for l in labs]
        lev = sorted([e, j + 1, i + 1] for j, v in enumerate(es) for i, e in enumerate(v))
        num = round(float(part["diagratio"]) * DEN)
        f = float(part["restartfactor"])
        steps.append({"n": n, "last": n == p.N - 1, "par": dict(tr["par"], ke=s["ke"], sg=s["sg"]), "den": DEN, "num": num,
                      "fnum": int(f * 4), "fden": 4, "restart": part.get("restart", "true") == "true",
                      "subs": [{"es": v, "comp": len(P[l]["value_orig"]), "kept": int(P[l]["nrkept"][0])} for l, v in zip(labs, es)],
                      "lev": lev,
                      "attempts": [{"num": (DEN if (tr["par"]["lastall"] and n == p.N - 1) else num) if r is None else round(r * DEN), "total": k} for r, k in att[n]]})
        # the steps stay comparable only as long as the same states are retained
        if any(int(F[l]["nrkept"][0]) != int(P[l]["nrkept"][0]) for l in labs): break
    return steps, bad, pr, p.param(part)


def run(ck):
    exe = vlib.build_engine(os.path.join(ck.tmp, "eng"), ["QS", "QSZ", "SPSU2", "ISO", "U1", "SPU1", "NONE", "P", "SL"])
    items = inputs(ck)
    recs = vlib.par(lambda it: one(ck, exe, it), items)
    jobs = []
    for (p, part), (steps, bad, pr, par) in zip(items, recs):
        if bad:
            ck.violation("%s: %s" % (p.label, bad), "partial:" + p.label, {"data": p.data(), "param": par, "stdout": pr.stdout[-20000:], "stderr": pr.stderr[-4000:]})
        for s in steps or []: jobs.append((p, s, pr, par))
    groups = [list(range(len(jobs)))[i::vlib.NCPU] for i in range(vlib.NCPU)]
    verdict = [None] * len(jobs)

    def judge(g):
        r = vlib.tlc_must(ck, "PartialDiag", "SPECIFICATION Spec\nINVARIANTS Emit SettledIsRight\nCHECK_DEADLOCK FALSE\n", workers=1, timeout=850 if ck.quick else 7000,
                          files={"steps.json": json.dumps([jobs[i][1] for i in g])})
        for k, i in enumerate(g): verdict[i] = vlib.json_out(r, "verdict%d.json" % (k + 1))
    vlib.par(judge, [g for g in groups if g])
    retried = 0
    seen = set()
    for (p, s, pr, par), v in zip(jobs, verdict):
        if v["why"] and p.label not in seen:
            seen.add(p.label)
            ck.violation("%s: step %d, attempt %d: %s" % (p.label, s["n"], v["attempts"], ", ".join(v["why"])), "partial:" + p.label,
                         {"data": p.data(), "param": par, "stdout": pr.stdout[-20000:], "step.json": json.dumps(s)[:300000]})
        elif not v["why"]:
            ck.traces()
            if len(s["attempts"]) > 1:
                retried += 1
                ck.sample("%s step %d: attempts (ratio, retained) %s of %d levels" % (p.label, s["n"], [(a["num"] / DEN, a["total"]) for a in s["attempts"]], len(s["lev"])))
    ck.extra["steps_with_retries"] = retried
    ck.extra["runs"] = len(items)
    if not retried: raise vlib.CheckError("no step was ever repeated")
