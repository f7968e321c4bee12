"""C06: the subspaces of every step are those generated by the retained parents (NRGRun.tla)."""
import os
import eng, nrgrun, vlib

CLAUSES = {"set of subspaces", "subspace dimensions", "reported statistics"}


def inputs(ck):
    rng = ck.rng
    res = []
    for name, s in sorted(eng.SYMS.items()):
        for ch in s.channels:
            dim = 2 ** (s.spin * ch)
            for v in range(2 if ck.quick else 6):
                N = 5 if dim <= 16 else 4 if dim <= 64 else 3
                if ck.quick and dim > 64 and v: continue
                if dim > 128: N = 2
                keep = rng.choice([3, 9, 25, 60] if dim <= 64 else [4, 12, 25])
                if dim > 128: keep = 6
                pr = {"keep": keep, "absolute": rng.choice(["true", "false"]), "Lambda": rng.choice([2, 3])}
                p = nrgrun.random_problem(name, ch, N, rng, params=pr, label="%s-%dch-%d" % (name, ch, v), nseed=1 + v)
                res.append((p.label, name, p.data(), p.param(nrgrun.RAW)))
    for name, ch in (("QS", 2), ("QSZ", 2), ("SPSU2", 2), ("SPU1", 2)):
        p = nrgrun.random_problem(name, ch, 4, rng, params={"keep": 12, "substeps": "true"}, label="%s-%dch-substeps" % (name, ch))
        res.append((p.label, name, p.data(), p.param(nrgrun.RAW)))
    ex = nrgrun.repo_inputs(ck.quick, maxbytes=12000 if ck.quick else 10 ** 6)
    ex = [e for e in ex if "project" not in e[3]]      # projected runs report only a part of the states
    if ck.quick: ex = rng.sample(ex, min(30, len(ex)))
    for label, name, data, par in ex:
        res.append((label, name, data, nrgrun.with_params(par, dict(nrgrun.RAW))))
    return res


def record(ck, exe, item, sub="run", levels=False):
    label, name, data, par = item
    d = os.path.join(ck.tmp, sub, label.replace("/", "_"))
    p = eng.run_engine(exe, d, data, par, timeout=120 if ck.quick else 1500)
    if not p.ok or not os.path.exists(os.path.join(d, "raw.h5")):
        return None, p, d
    return nrgrun.trace(name, d, p.stdout.decode(errors="replace"), levels=levels, maxsteps=(18 if ck.quick else 10 ** 6)), p, d


def examine(ck, exe, items, clauses, levels=False):
    recs = vlib.par(lambda it: record(ck, exe, it, levels=levels), items)
    good = [i for i, r in enumerate(recs) if r[0] is not None]
    failed = [i for i, r in enumerate(recs) if r[0] is None]
    verdicts = nrgrun.judge(ck, [recs[i][0] for i in good], timeout=840 if ck.quick else 7000)
    nsteps = 0
    for i, v in zip(good, verdicts):
        t, (label, name, data, par) = recs[i][0], items[i]
        why = set(v["why"]) & clauses
        if not v["why"] and v["steps"] != t["expected_steps"]:
            why = {"number of steps"}
        if why:
            ck.violation("%s: step %d is not a step of the specification: %s" % (label, v["steps"], ", ".join(sorted(why))),
                         "run:" + label, {"data": data, "param": par, "trace.json": __import__("json").dumps(t["steps"][v["steps"] - 1])[:500000],
                                          "stdout": recs[i][1].stdout[-20000:]})
        else:
            ck.traces()
            nsteps += v["steps"]
            if len(ck.cov["samples"]) < 4 and len(t["steps"]) > 2:
                ck.sample("%s: %s" % (label, ["%d subspaces, %d of %d levels kept" % (len(s["subs"]), sum(x["kept"] for x in s["subs"]), sum(x["dim"] for x in s["subs"])) for s in t["steps"]][:5]))
    ck.extra["steps_accepted"] = ck.extra.get("steps_accepted", 0) + nsteps
    return recs, failed


def mutated(t, rng):
    """recordings that must be rejected (the binding is live)"""
    import copy
    res = []
    s = t["steps"][-1]
    if len(s["subs"]) > 1:
        m = copy.deepcopy(t); m["steps"][-1]["subs"].pop(rng.randrange(len(s["subs"]))); res.append((m, "set of subspaces"))
    m = copy.deepcopy(t); rng.choice(m["steps"][-1]["subs"])["dim"] += 1; res.append((m, "subspace dimensions"))
    return res


def run(ck):
    exe = vlib.build_engine(os.path.join(ck.tmp, "eng"))
    items = inputs(ck)
    recs, failed = examine(ck, exe, items, CLAUSES)
    for i in failed:
        label, name, data, par = items[i]
        ck.violation("%s: the run did not complete (exit %s)" % (label, recs[i][1].returncode), "run:" + label,
                     {"data": data, "param": par, "stdout": recs[i][1].stdout[-5000:], "stderr": recs[i][1].stderr[-5000:]})
    good = [r[0] for r in recs if r[0] is not None and len(r[0]["steps"]) > 1]
    if good:
        muts = [m for t in ck.rng.sample(good, min(6, len(good))) for m in mutated(t, ck.rng)]
        for (m, clause), v in zip(muts, nrgrun.judge(ck, [m for m, c in muts])):
            if clause not in v["why"]:
                raise vlib.CheckError("a falsified recording was accepted (%s)" % clause)
        ck.extra["falsified_recordings_rejected"] = len(muts)
    ck.extra["runs"] = len(items)
