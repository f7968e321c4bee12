"""C03: spectral functions of untruncated chains against the Lehmann representation (levels and traces from FullDensity.tla)."""
import math, os, random
import vlib, oper, c02, c04
from eng import SYMS


class Full(c04.Trunc):
    """nothing is discarded; with one step every algorithm is exact"""
    single = True
    mats = ("FDMmats",)

    def algs(self, prob, last):
        a = [(x, prob) for x in ("FDM", "FDMgt", "FDMls", "CFS", "CFSgt", "CFSls")]
        return a + ([("FT", prob), ("DMNRG", prob)] if self.single else [])


class Single(Full):
    mats = ("FDMmats", "FTmats", "DMNRGmats")


def lin(T, E1, Ep, n):
    return (E1 - Ep) ** n / T / (math.exp(E1 / T) + math.exp(Ep / T))


def chit(T, E1, Ep):
    x = (E1 - Ep) / T
    return math.exp(-Ep / T) if abs(x) < 1e-10 else (math.exp(-Ep / T) - math.exp(-E1 / T)) / x


def transport(ck, p, d, scale):
    """G(T), I1(T), I2(T), chi(T) of a chain with one step"""
    e0 = min(e for e, l, c in p.out[-1])
    n, s = 0, p.sym
    env = {}                                                        # energies of the rest of the chain with each level of the seed
    for e, l, c in p.out[-1]: env.setdefault(l - 1, []).append((e - e0, c))
    base, k = [], 0
    for q, es in p.seed:
        base.append(k)
        k += len(es)
    lev = {l - 1: e for l, (q, e, i) in enumerate(p.levels, 1)}
    for op1, op2 in p.corr:
        jobs = [("gt", "GT", 0, "gtp"), ("i1t", "I1T", 1, "gtp"), ("i2t", "I2T", 2, "gtp")] if op1.kind == "d" else [("chit", "CHIT", None, "chitp")] if op1.kind == "s" else []
        for name, spin in oper.spectra(s, op1, op2):
            for pre, alg, power, par in jobs:
                T = float(p.params[par]) * scale
                Z = math.fsum(c * math.exp(-(e - e0) / T) for e, l, c in p.out[-1])
                want = 0.0
                for (i, j), (rep, m) in op1.blocks.items():
                    if (i, j) not in op2.blocks or (spin and rep[oper.spin_index(s)] != spin): continue
                    (qb, eb), (qa, ea) = p.seed[i], p.seed[j]
                    f = oper.factor(s, rep, qb)
                    for x in range(len(eb)):
                        for y in range(len(ea)):
                            w = f * m[x][y].conjugate() * op2.blocks[(i, j)][1][x][y]
                            for e, c in env[base[j] + y]:
                                E1, Ep, mul = e + eb[x] - ea[y], e, c / p.dim(qa)
                                want += w * mul * (chit(T, E1, Ep) if power is None else lin(T, E1, Ep, power)) / Z
                fn = os.path.join(d, "%s_%s_dens_%s.dat" % (pre, alg, name))
                if not os.path.exists(fn): return "no %s curve %s" % (pre, name), n
                got = c02.rows_of(fn)[1]
                if len(got) != 1 or not c02.close(got[0][0], T, 1e-9): return "%s_%s: %r instead of one value at T=%g" % (pre, name, got[:3], T), n
                val = complex(*got[0][1:]) if len(got[0]) == 3 else got[0][1]
                if abs(val - want) > 1e-8 * max(1, abs(want)): return "{}_{}: {:.12g} instead of {:.12g} at T={:g}".format(pre, name, val, want, T), n
                n += 1
    return None, n


def unit(par, ch):
    """unit of energy of the last step"""
    return c02.scale(par, 1, ch) if par.get("absolute") == "false" else 1.0


def problems(ck):
    rng, P, q = ck.rng, [], ck.quick

    def one(n, ch, tag="", N=1, cf=1, scaled=False, kinds=None, cplx=None, **par):
        s = SYMS[n]
        nt = (1 if s.same else ch) * cf
        seed, ops, corr = c04.operators(rng, s, ch, kinds, bool(cplx))
        blocks, left = [], N
        while left:
            kind = "dimer" if left >= 2 and (rng.random() < (0.75 if s.ph else 0.4)) else "site"
            v = [rng.choice([1, 2, 3]) if kind == "dimer" else 0 if s.ph else rng.randint(-3, 3) for _ in range(nt)]
            blocks.append((kind, v))
            left -= 2 if kind == "dimer" else 1
        if s.same: blocks = [(k, v * ch if len(v) == 1 else [v[0]] * ch + [v[1]] * ch) for k, v in blocks]
        T = rng.choice([0.6, 1.3, 2.5])
        single = N == 1
        L = rng.choice([1.5, 1.2, 2]) if not single else rng.choice([400, 900])
        par = dict({"Lambda": L, "prec_td": 17, "width_td": 30, "prec_custom": 17, "width_custom": 30, "prec_xy": 17, "savebins": "true", "broaden": "false",
                    "bins": rng.choice([150, 300]), "fdm": "true", "fdmgt": "true", "fdmls": "true", "cfs": "true", "cfsgt": "true", "cfsls": "true", "fdmmats": "true",
                    "mats": 4, "fdmexpv": "true", "fdmexpvn": 0, "ops": "op", "checkrho": "true", "emin": 0.01, "emax": 100, "T": repr(T)}, **par)
        if scaled: par["absolute"] = "false"
        par["keepenergy"], par["keep"], par["safeguardmax"] = "-1", 1000000, 1000000
        if scaled: par["bandrescale"] = "1.25"
        if single:
            par.update({"finite": "true", "dmnrg": "true", "finitemats": "true", "dmnrgmats": "true", "gtp": repr(rng.choice([0.7, 1.1])), "chitp": repr(rng.choice([0.9, 1.3]))})
            if ch > 1: par["Lambda"] = L * L
            par["goodE"] = repr(0.1 / unit(par, ch))                # everything lies within the energy window
            d = [b for b in corr if b[0].kind == "d"]
            for k in ("specgt", "speci1t", "speci2t"): par[k] = " ".join(nm for a, b in d for nm, spin in oper.spectra(s, a, b))
            par["specchit"] = "op-op"
        par.update(c04.requests(s, corr))
        if cplx: par["reim"] = "true"
        P.append((Single if single else Full)(n, ch, blocks, seed, ops, T, 1e6, params=par, tag=tag, coeffactor=cf, cplx=cplx))
        P[-1].corr, P[-1].single = corr, single
    for n, s in SYMS.items():
        if n == "ISO2LR": continue
        for ch in s.channels:
            if ch == 4: continue
            one(n, ch, "-single")
            m = ch * s.spin
            if m <= 4 and (ch == s.channels[0] or not q): one(n, ch, "-chain", N={1: 4, 2: 3, 3: 2, 4: 2}[m] - (n == "NONE" and m == 4))
    for n, ch in (("QS", 1), ("QSZ", 2), ("SPSU2", 1), ("ISO", 2), ("SL", 3), ("NONE", 1)): one(n, ch, "-scaled", scaled=True)
    for n, ch in c04.CPLX:
        one(n, ch, "-complex", cplx=True)
        if ch == 1: one(n, ch, "-complexchain", N=3 if SYMS[n].spin == 2 and n != "NONE" else 2, cplx=True)
    for n, ch in (("QSZ", 1), ("QSZ", 2), ("U1", 1), ("NONE", 1)): one(n, ch, "-pol", cf=2, polarized="true")
    keep, rng = rng, random.Random(c04.PROBE)
    for n, k in sorted(c04.BROKEN): one(n, 3, "-probe-" + k, N=2, kinds=["s", "d", "t"] if (n, k) == ("QS", "t") else ["s", k])
    rng = keep
    if not q:
        for r in range(60):
            n = rng.choice([x for x in SYMS if x != "ISO2LR"])
            ch = rng.choice([c for c in SYMS[n].channels if c < 4])
            m = ch * SYMS[n].spin
            one(n, ch, "-r%d" % r, N=rng.choice([1, 1, {1: 4, 2: 3, 3: 2, 4: 2, 6: 1}[m]]))
    return P


def compare(ck, p, exe):
    what, rep, n = c04.compare(ck, p, exe)
    if what is None and p.single:
        what, k = transport(ck, p, os.path.join(ck.tmp, "run", p.label), unit(p.params, p.channels))
        if what: what = p.label + ": " + what
        n += k
    return what, rep, n


def run(ck):
    exe = vlib.build_engine(os.path.join(ck.tmp, "eng"))
    probs = problems(ck)

    def tlc(p):
        r = vlib.tlc_must(ck, p.module(), c04.CFG % (p.channels * p.sym.spin), workers=1, timeout=600)
        p.out = vlib.json_out(r, "fdm.json")
    vlib.par(tlc, probs)
    n = single = 0
    for p, (what, rep, k) in zip(probs, vlib.par(lambda p: compare(ck, p, exe), probs)):
        n += k
        if what: ck.violation(what, ("nan-factor:" if getattr(p, "nan", False) else "lehmann:") + p.label, rep)
        else:
            ck.traces()
            single += p.single
            if p.label in ("QS-1ch-N1-single", "ISO-1ch-N1-single", "SL-1ch-N4-chain"): ck.sample("%s: blocks %s T=%s operators %s" % (p.label, p.blocks, p.T, [o.name for o in p.ops]))
    ck.extra["values_compared"] = n
    ck.extra["problems"] = len(probs)
    ck.extra["single_step_problems"] = single
