"""C01: the spectrum of every untruncated run equals the multiplet content FreeChain.tla derives."""
import collections, os
import vlib, eng
from eng import Problem, SYMS


def seed_of(s, n=9):
    return [(s.seed0, [0])] + [(q, [j + 1]) for j, q in enumerate(s.spect[:n])]


def tables(s, ch, N, rng):
    """Krawtchouk parameters per channel: one-particle energies b + a k."""
    if s.ph:       # particle-hole symmetric chains only
        a0 = rng.choice([2, 4]) if N > 1 else 2
        f = [1] * ch if s.same else rng.sample([1, 2, 3], ch)
        return [(a0 * x, -(N - 1) * a0 * x // 2) for x in f]
    if s.same:
        return [(rng.choice([1, 2, 3]), rng.choice([-2, -1, 1]))] * ch
    return [(rng.choice([1, 2, 3]), rng.choice([-3, -2, -1, 1, 2])) for _ in range(ch)]


def problems(ck):
    rng, P, q = ck.rng, [], ck.quick
    for n, s in SYMS.items():
        for ch in s.channels:
            if n == "ISO2LR":      # the known finding: fixed input
                P.append(Problem(n, ch, 2, [(2, -1)] * 2, seed=seed_of(s)))
                continue
            if q:
                N = 3 if ch == 1 or s.spin == 1 else (2 if ch < 4 else 1)
                sd = seed_of(s) if ch < 3 or n in ("QJ", "SPSU2T", "QST", "QSC3") else None
            else:
                N = (5 if ch == 1 else 3 if ch == 2 or s.spin == 1 else 2)
                sd = seed_of(s) if ch < 4 else None
            P.append(Problem(n, ch, N, tables(s, ch, N, rng), seed=sd))
            if not q:
                P.append(Problem(n, ch, max(1, N - 1), tables(s, ch, max(1, N - 1), rng), seed=sd, tag="-b"))

    def var(n, ch, tag, N=None, **kw):
        s = SYMS[n]
        N = N or ((3 if ch == 1 else 2) if q else (5 if ch == 1 else 3 if ch == 2 else 2))
        if "tables" not in kw:
            t = tables(s, ch, N, rng)
            cf = kw.get("coeffactor", 1)
            if cf >= 2: t = t + tables(s, ch, N, rng)
            if cf == 4: t = t + [(0, 0)] * (2 * ch)
        else:
            t = kw.pop("tables")
        P.append(Problem(n, ch, N, t, seed=seed_of(s) if (ch < 3 or not q) and tag != "-scaled" else None, tag=tag, **kw))

    ang = rng.uniform(0.2, 1.3)
    for n, chs in (("QSZ", (1, 2, 3)), ("U1", (1, 2, 3)), ("SPU1", (1, 2)), ("NONE", (1, 2)), ("P", (1, 2)), ("PP", (2,))):
        for ch in chs: var(n, ch, "-polarized", coeffactor=2)
    for ch in (1, 2, 3): var("U1", ch, "-2x2", coeffactor=4, spinrot=ang)
    for ch in (1, 2): var("U1", ch, "-2x2cplx", coeffactor=4, spinrot=ang, phase=0.9, cplx=True)
    for n in ("QS", "QSZ"): var(n, 2, "-rungs", rung=ang, N=2 if q else 3, tables=[(2, -1), (3, -2)])
    for n, chs in (("SPSU2", (1, 2, 3)), ("SPU1", (1, 2)), ("SPSU2LR", (2,)), ("SPU1LR", (1, 2))):
        for ch in chs: var(n, ch, "-sc", theta=ang)
    for ch in (1, 2): var("SPU1", ch, "-polsc", theta=ang, coeffactor=2, tables=tables(SYMS["SPU1"], ch, 3 if ch == 1 else 2, rng) * 2, N=3 if ch == 1 else 2)
    for n, chs in (("NONE", (1, 2)), ("P", (1, 2)), ("PP", (2,)), ("SPSU2C3", (3,)), ("SPSU2", (1, 2, 3)), ("SPU1", (2,))):
        for ch in chs:
            var(n, ch, "-pair", pairing=4, N=3 if ch == 1 else 2, tables=[(3, -3) if ch == 1 else (6, -3)] * ch)
    for n, chs in (("QS", (2, 3)), ("QSZ", (2, 3)), ("SPSU2", (2, 3)), ("SPU1", (2,))):
        for ch in chs: var(n, ch, "-substeps", params={"substeps": "true"})
    for n, ch in (("QS", 1), ("QSZ", 2), ("SPSU2", 2), ("ISO", 1), ("SL", 1), ("U1", 1)):
        var(n, ch, "-scaled", params={"absolute": "false", "Lambda": 3, "discretization": rng.choice("YCZ"), "bandrescale": rng.choice([1, 2])})
    for n, ch in (("QS", 2), ("QSZ", 1), ("SPSU2", 1), ("ISO", 2), ("U1", 2), ("NONE", 1)):
        var(n, ch, "-complex", cplx=True)
    # complex coefficients: the phases of a local gauge transformation c_n -> exp(i phi_n) c_n leave the spectrum unchanged
    def gph(N): return dict(cplx=True, gauge=[rng.uniform(0, 6.28) for _ in range(N)])
    for n in ("QS", "QSZ", "U1", "SL", "QSLR", "NONE", "P", "PP", "SL3", "QSC3", "QJ") + (() if q else ("QSZLR", "QST", "QSTZ", "DBLSU2", "QSZTZ", "SPSU2C3")):
        s = SYMS[n]
        if n in ("DBLSU2", "SPSU2C3"): continue
        ch = s.channels[0]
        var(n, ch, "-gauge", N=3 if ch == 1 or s.spin == 1 else 2, **gph(3))
    for n, chs in (("SPSU2", (1, 2, 3)), ("SPU1", (1, 2)), ("SPSU2LR", (2,)), ("SPU1LR", (1, 2))):
        for ch in chs: var(n, ch, "-scgauge", theta=ang, N=3 if ch == 1 else 2, **gph(3))
    for n, chs in (("NONE", (1, 2)), ("P", (1, 2)), ("PP", (2,)), ("SPSU2C3", (3,)), ("SPU1", (1,)), ("SPSU2", (1,))):
        for ch in chs:
            var(n, ch, "-pairgauge", pairing=4, N=3 if ch == 1 else 2, tables=[(3, -3) if ch == 1 else (6, -3)] * ch, **gph(3))
    for n, ch in (("QSZ", 1), ("U1", 1), ("SPU1", 2), ("NONE", 1), ("P", 1), ("PP", 2)):
        var(n, ch, "-polgauge", N=3 if ch == 1 else 2, coeffactor=2, **gph(3))
    for n in ("SPSU2", "SPU1"): var(n, 2, "-subgauge", theta=ang, N=2, params={"substeps": "true"}, **gph(2))
    for n in ("QS", "QSZ"): var(n, 2, "-runggauge", rung=ang, N=2 if q else 3, tables=[(2, -1), (3, -2)], **gph(3))
    var("U1", 1, "-2x2gauge", N=3, coeffactor=4, spinrot=ang, phase=0.9, **gph(3))
    return P


def compare(ck, prob, exe):
    import time; t0 = time.time()
    try: return compare1(ck, prob, exe)
    finally:
        if os.environ.get("VERIF_TIMES"): print("%6.1f %s" % (time.time() - t0, prob.label))


def compare1(ck, prob, exe):
    d = os.path.join(ck.tmp, "run", prob.label)
    p = eng.run_engine(exe, d, prob.data(), prob.param(), timeout=240 if ck.quick else 3000)
    key = "spectrum:" + prob.label
    rep = {"data": prob.data(), "param": prob.param(), "stdout": p.stdout[-20000:], "stderr": p.stderr[-5000:],
           "specification.json": __import__("json").dumps(prob.out)}
    if not p.ok:
        return key, "%s: the run did not complete (exit %s)" % (prob.label, p.returncode), rep
    want = eng.spectrum(prob)
    got = collections.Counter()
    its = eng.parse_energies(os.path.join(d, "absolute_energies.dat"))
    if not its:
        return key, "%s: no energies reported" % prob.label, rep
    bad = []
    for lab, es in its[-1].items():
        for e in es:
            if abs(e - round(e)) > 2e-4 * max(1, abs(e)): bad.append((lab, e))
            got[(round(e), lab)] += 1
    rep["absolute_energies.dat"] = open(os.path.join(d, "absolute_energies.dat")).read()[-200000:]
    if bad:
        return key, "%s: energies that are not in the spectrum: %s" % (prob.label, bad[:4]), rep
    if got != want:
        return key, "%s: multiplets missing %s, unexpected %s" % (
            prob.label, sorted((want - got).items())[:4], sorted((got - want).items())[:4]), rep
    return key, None, sum(got.values())


def run(ck):
    exe = vlib.build_engine(os.path.join(ck.tmp, "eng"))
    probs = problems(ck)
    eng.solve(ck, probs, timeout=850 if ck.quick else 7000)
    ck.extra["t_solved"] = round(__import__("time").time() - ck.t0, 1)
    probs.sort(key=lambda p: -len(p.modes()))
    nm = 0
    for prob, (key, what, rep) in zip(probs, vlib.par(lambda p: compare(ck, p, exe), probs)):
        if what:
            ck.violation(what, key, rep)
        else:
            ck.traces()
            nm += rep
            if prob.label in ("QS-3ch-N2", "QSC3-3ch-N2", "SPSU2-2ch-N2-sc"):
                ck.sample("%s: tables %s seed %s -> %d multiplets" % (prob.label, prob.tables, prob.seed, rep))
    ck.extra["multiplets_compared"] = nm
    ck.extra["problems"] = len(probs)
    ck.extra["symmetry_types"] = len({p.sym.name for p in probs})
    ck.assumptions += ["seed cluster decoupled from the chain (coupled seeds: see C03)",
                       "quadratic Hamiltonians: interactions enter only through the seed energies"]
