"""C05: truncation keeps exactly the states the parameters ask for (Truncation.tla within NRGRun.tla)."""
import copy, os
import c06, eng, nrgrun, vlib

CLAUSES = {"order of the levels", "number of computed states", "discarded state below a retained one", "number of retained states",
           "reported statistics", "number of steps"}
SYMS = [("QS", 1), ("QS", 2), ("QSZ", 1), ("SPSU2", 1), ("SPSU2", 2), ("ISO", 1), ("ISO", 2), ("U1", 1), ("SPU1", 1), ("NONE", 1), ("SL", 2), ("P", 1)]


def variants(rng):
    """truncation parameters, by kind"""
    k = rng.choice
    yield "count", {"keep": k([2, 3, 7, 20, 41])}
    yield "count-nosg", {"keep": k([3, 10, 25]), "safeguard": 0}
    yield "count-negsg", {"keep": k([3, 10, 25]), "safeguard": -1}
    yield "safeguard", {"keep": k([3, 10, 25]), "safeguard": k([1e-3, 0.02, 0.2])}
    yield "safeguard-big", {"keep": k([3, 10]), "safeguard": 1, "safeguardmax": k([1, 2, 5])}
    yield "safeguard-max0", {"keep": k([3, 10]), "safeguard": 0.5, "safeguardmax": 0}
    yield "energy", {"keep": 500, "keepenergy": k([0.7, 1.9, 3.3])}
    yield "energy-max", {"keep": k([4, 9, 17]), "keepenergy": k([3.1, 6.3])}
    yield "energy-min", {"keep": 40, "keepenergy": k([0.05, 0.4]), "keepmin": k([5, 13, 30])}
    yield "energy-sg", {"keep": 60, "keepenergy": k([1.1, 2.7]), "keepmin": 4, "safeguard": k([0.01, 0.1]), "safeguardmax": k([2, 50])}
    yield "energy-minmax", {"keep": 12, "keepmin": 12, "keepenergy": 1.7}
    yield "energy-zero", {"keep": 15, "keepmin": 10, "keepenergy": 0}
    yield "even", {"keep": k([3, 8]), "keepall": "even"}
    yield "odd", {"keep": k([3, 8]), "keepall": "odd"}
    yield "list", {"keep": k([3, 8]), "keepall": k(["0,2", "1,3", "2", "0,1,3", "12,1"])}
    yield "lastall", {"keep": k([3, 8]), "lastall": "true"}
    yield "fdm", {"keep": k([3, 8]), "fdmexpv": "true", "fdm": "true"}
    yield "fdm-override", {"keep": k([3, 8]), "fdm": "true", "lastalloverride": "true"}
    yield "dmnrg", {"keep": k([3, 8]), "dmnrg": "true"}
    yield "fixeps", {"keep": k([5, 8]), "fixeps": 1e-3}


def inputs(ck):
    rng, res = ck.rng, []
    for rep in range(1 if ck.quick else 8):
        for name, ch in SYMS:
            for vn, pr in variants(rng):
                if ck.quick and rng.random() < 0.45: continue
                pr = dict(pr)
                pr.setdefault("absolute", rng.choice(["true", "false"]))
                pr["Lambda"] = rng.choice([1.8, 2, 3, 4])
                pr["discretization"] = rng.choice("YCZ")
                pr["z"] = rng.choice([1, 0.6])
                pr["bandrescale"] = rng.choice([1, 1, 1.4])
                if float(pr.get("safeguard", 1)) < 0.003 and pr.get("safeguard") not in (0, -1) and rng.random() < .5: pr["safeguard"] = 1e-3
                N = rng.choice([4, 5, 6]) if ch == 1 else 4
                if name == "QSZ" and rng.random() < 0.3: pr["substeps"] = "true"
                if name == "NONE": N = rng.choice([3, 4])
                p = nrgrun.random_problem(name, ch, N, rng, params=pr, label="%s-%dch-%s-%d" % (name, ch, vn, rep), nseed=rng.choice([1, 2, 3]))
                res.append((p.label, name, p.data(), p.param(nrgrun.RAW)))
    ex = [e for e in nrgrun.repo_inputs(ck.quick, maxbytes=9000 if ck.quick else 10 ** 6) if e[1] in {s for s, c in SYMS} and "project" not in e[3]]
    if ck.quick: ex = rng.sample(ex, min(24, len(ex)))
    for label, name, data, par in ex:
        ov = dict(nrgrun.RAW)
        if rng.random() < 0.6: ov.update(rng.choice([{"keep": 17, "keepmin": 5}, {"keep": 30, "keepmin": 0, "safeguard": "0.03"}, {"keep": 50, "keepenergy": "2.5", "keepmin": 6}]))
        res.append((label, name, data, nrgrun.with_params(par, ov)))
    return res


def mutated(t, rng):
    res = []
    for n, s in enumerate(t["steps"]):
        tot, lev = sum(x["kept"] for x in s["subs"]), sum(x["comp"] for x in s["subs"])
        if tot == lev: continue
        a = [j for j, x in enumerate(s["subs"]) if x["kept"] < x["comp"]]
        b = [j for j, x in enumerate(s["subs"]) if x["kept"] > 0]
        if len(a) and len(b):
            m = copy.deepcopy(t); m["steps"][n]["subs"][max(b, key=lambda j: s["subs"][j]["es"][s["subs"][j]["kept"] - 1])]["kept"] -= 1
            res.append(m)
            m = copy.deepcopy(t); m["steps"][n]["subs"][max(a, key=lambda j: s["subs"][j]["es"][s["subs"][j]["kept"]])]["kept"] += 1
            res.append(m)
            return res
    return res


def run(ck):
    exe = vlib.build_engine(os.path.join(ck.tmp, "eng"), ["QS", "QSZ", "SPSU2", "ISO", "U1", "SPU1", "NONE", "SL", "P"])
    items = inputs(ck)
    recs, failed = c06.examine(ck, exe, items, CLAUSES, levels=True)
    for i in failed:
        label, name, data, par = items[i]
        ck.violation("%s: the run did not complete (exit %s)" % (label, recs[i][1].returncode), "run:" + label,
                     {"data": data, "param": par, "stdout": recs[i][1].stdout[-5000:], "stderr": recs[i][1].stderr[-5000:]})
    good = [r[0] for r in recs if r[0] is not None and sum(len(s["E"]) for s in r[0]["steps"]) < 2000]
    muts = [m for t in ck.rng.sample(good, min(24, len(good))) for m in mutated(t, ck.rng)]
    if muts and not ck.viol:
        vs = nrgrun.judge(ck, muts)
        bad = [v for v in vs if not set(v["why"]) & CLAUSES]
        if bad: raise vlib.CheckError("falsified recordings were accepted: %d of %d" % (len(bad), len(muts)))
        ck.extra["falsified_recordings_rejected"] = len(muts)
    ck.extra["runs"] = len(items)
