"""C04: the complete basis of truncated runs (FullDensity.tla): full density matrix, its traces, spectral weights."""
import math, os, random, struct
import vlib, eng, oper
from eng import Problem, SYMS
import c02

CFG = "SPECIFICATION Spec\nINVARIANTS Complete AllDone NoGap Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Seed <- MSeed\n Steps <- MSteps\n M = %d\n"


class Trunc(Problem):
    """blocks: list of ("site", [e per table]) / ("dimer", [t per table]); win: window of the truncation, or None"""

    def __init__(self, sym, ch, blocks, seed, ops, T, keepenergy, params=None, tag="", coeffactor=1, cplx=None):
        self.blocks, self.ops, self.T, self.ke = blocks, ops, T, keepenergy
        nt = len(blocks[0][1])
        xi, ze = [[] for _ in range(nt)], [[] for _ in range(nt)]
        for kind, v in blocks:
            for t in range(nt):
                if kind == "site":
                    ze[t].append(float(v[t]))
                    xi[t].append(0.0)
                else:
                    ze[t] += [0.0, 0.0]
                    xi[t] += [float(v[t]), 0.0]
        N = len(ze[0])
        Problem.__init__(self, sym, ch, N, [(0, 0)] * nt, seed=seed, coeffactor=coeffactor, params=params, tag=tag, chain=[(x[:-1], z) for x, z in zip(xi, ze)], cplx=cplx)
        if self.params.get("absolute") == "false": self.seedscale = c02.scale(self.params, 0, ch)
        self.levels = [(q, e, i) for q, es in self.seed for i, e in enumerate(sorted(es))]

    mats = ("FDMmats",)

    def algs(self, prob, last):
        """the algorithms, and the probabilities of the levels they are defined with"""
        return [("FDM", prob), ("FDMgt", prob), ("FDMls", prob), ("CFS", last)]

    def pairs(self):
        s = self.sym
        return [(c, sp) for c in range(self.channels) for sp in ((1, -1) if s.spin == 2 else (1,))]

    def table(self, c, sp):
        if self.sym.same: c = 0
        return c if (self.coeffactor == 1 or sp == 1) else c + self.channels

    def dim(self, q):
        d = 1
        for t, x in zip(self.sym.types, q):
            if t == "su2": d *= x + 1
        return d

    def steps(self):
        """the steps for the specification; energies in units of 1/2"""
        res, n = [], 0
        for kind, v in self.blocks:
            es = [2 * v[self.table(c, sp)] for c, sp in self.pairs()]
            off = 0 if kind == "dimer" else -sum(es) // 2 // (self.channels if self.sym.name in c02.ORB else 1)
            for part in ([("site", es, off)] if kind == "site" else [("open", [], 0), ("close", es + [-x for x in es], 0)]):
                n += 1
                w = 2 * self.ke * c02.scale(self.params, n, self.channels)
                assert abs(w - round(w)) > 1e-3
                res.append({"kind": part[0], "modes": list(part[1]), "off": part[2], "win": 10000 if self.params.get("keepall") == "0" and n == 1 else math.floor(w)})
        return res

    def module(self):
        return "---- MODULE MC ----\nEXTENDS FullDensity\nMSeed == %s\nMSteps == %s\n====\n" % (
            vlib.tla([{"e": 2 * int(e), "n": self.dim(q)} for q, e, i in self.levels]), vlib.tla(self.steps()))

    def data(self):
        txt = Problem.data(self)
        head, tail = txt.split("\ne\n", 1)
        out = [head]
        for o in self.ops: out += oper.text(self.sym, self.seed, o)
        return "\n".join(out) + "\ne\n" + tail


def bins(path, cplx=False):
    if not os.path.exists(path): return None
    b = open(path, "rb").read()
    if cplx: return [(e, complex(x, y)) for e, x, y in (struct.unpack_from("ddd", b, k) for k in range(0, len(b), 24))]
    return [struct.unpack_from("dd", b, k) for k in range(0, len(b), 16)]


def total(xs):
    xs = [complex(x) for x in xs]
    z = complex(math.fsum(x.real for x in xs), math.fsum(x.imag for x in xs))
    return z if z.imag else z.real


def known_cfs(p, op1, op2, last, spin):
    """the weights the code is known to compute for bosonic operators (finding cfs-boson-sign): the excitations from a
    state of the last shell to states discarded in earlier shells have the wrong sign"""
    s, T, base, k, res = p.sym, p.T, [], 0, {}
    for q, es in p.seed:
        base.append(k)
        k += len(es)
    for (i, j), (rep, m) in op1.blocks.items():
        if (i, j) not in op2.blocks: continue
        (qb, eb), (qa, ea) = p.seed[i], p.seed[j]
        f = oper.factor(s, rep, qb)
        for x in range(len(eb)):
            for y in range(len(ea)):
                w, d = f * m[x][y].conjugate() * op2.blocks[(i, j)][1][x][y], eb[x] - ea[y]
                pa, pb = last.get(base[j] + y, 0.0) / p.dim(qa), last.get(base[i] + x, 0.0) / p.dim(qb)
                both = pb * math.exp(d / T) if d > 0 else pa * math.exp(-d / T)     # of the lower state, together with the upper one
                res[d] = res.get(d, 0.0) + w * (both - (pa - both) - pb if d > 0 else pa - both + (pb - both))
    return res


def check_bins(got, want, nbins, tol, what, emin=0.01):
    """got: [(frequency, weight)]; want: {frequency: weight}: every weight is within one bin of where it belongs"""
    step = math.log(10) / nbins * 1.01
    rest = list(got)
    for w0, wt in sorted(want.items()):
        near = [(e, w) for e, w in rest if (abs(e) <= emin * (1 + 1e-9) if w0 == 0 else e * w0 > 0 and abs(math.log(e / w0)) <= step)]
        s = total(w for e, w in near)
        if abs(s - wt) > tol: return "{}: weight {:.10g} instead of {:.10g} at the frequency {:g}".format(what, s, wt, w0)
        if w0 and abs(wt) > 1e-3:
            c = (total(w * math.log(abs(e)) for e, w in near) / s).real
            if abs(c - math.log(abs(w0))) > 1e-6: return "%s: the centre of the peak at %g is at %g" % (what, w0, math.exp(c) * (1 if w0 > 0 else -1))
        rest = [x for x in rest if x not in near]
    s = max([abs(w) for e, w in rest] or [0])
    if s > tol: return "%s: weight %g where no excitation is: %s" % (what, s, [x for x in rest if abs(x[1]) > tol][:4])
    return None


def compare(ck, p, exe):
    d = os.path.join(ck.tmp, "run", p.label)
    r = eng.run_engine(exe, d, p.data(), p.param(), timeout=300)
    rep = {"data": p.data(), "param": p.param(), "stdout": r.stdout[-20000:], "stderr": r.stderr[-4000:]}
    if not r.ok:
        if "isfinite(factor)" in str(r.stdout) + str(r.stderr): p.nan = True
        return "%s: the run did not complete (exit %s)" % (p.label, r.returncode), rep, 0
    T, n = p.T, 0
    p.out = [[(e / 2, l, c) for e, l, c in sh] for sh in p.out]
    e0 = min(e for sh in p.out for e, l, c in sh)
    W = [[(e, l, c * math.exp(-(e - e0) / T)) for e, l, c in sh] for sh in p.out]
    Z = math.fsum(w for sh in W for e, l, w in sh)
    wn = [math.fsum(w for e, l, w in sh) / Z for sh in W]
    p.wn = wn
    # thermodynamics
    E = math.fsum(w * (e - e0) for sh in W for e, l, w in sh) / Z
    E2 = math.fsum(w * (e - e0) ** 2 for sh in W for e, l, w in sh) / Z
    F = -T * math.log(Z)
    rep["tdfdm"] = open(os.path.join(d, "tdfdm")).read()
    names, rows = c02.rows_of(os.path.join(d, "tdfdm"))
    row = dict(zip(names, rows[-1]))
    for c, v in {"T": T, "F_fdm": e0 + F, "E_fdm": e0 + E, "C_fdm": (E2 - E * E) / T ** 2, "S_fdm": (E - F) / T}.items():
        if not c02.close(row[c], v): return "%s: tdfdm: %s=%r instead of %r" % (p.label, c, row[c], v), rep, n
        n += 1
    # expectation value of the local operator
    prob = {}
    for sh in W:
        for e, l, w in sh: prob[l - 1] = prob.get(l - 1, 0.0) + w / Z
    diag = [m[k][k] for i, (q, es) in enumerate(p.seed) for rep, m in [p.ops[0].blocks[(i, i)]] for k in range(len(es))]
    names, rows = c02.rows_of(os.path.join(d, "customfdm"))
    row = dict(zip(names, rows[-1]))
    v = math.fsum(diag[l] * x for l, x in prob.items())
    if wn[0] < 1e-14 and not c02.close(row["op"], v): return "%s: customfdm: <op>=%r instead of %r" % (p.label, row["op"], v), rep, n
    n += 1
    # spectral weights
    last = {}
    zl = math.fsum(w for e, l, w in W[-1])
    for e, l, w in W[-1]: last[l - 1] = last.get(l - 1, 0.0) + w / zl
    for op1, op2 in p.corr:
        for name, spin in oper.spectra(p.sym, op1, op2):
            e, k = check_spectrum(p, d, op1, op2, name, spin, prob, last)
            n += k
            if e:
                for f in os.listdir(d):
                    if name in f and f.endswith(".dat"): rep[f] = open(os.path.join(d, f)).read()[:20000]
                return "%s: %s" % (p.label, e), rep, n
    return None, rep, n


PARTS = {"gt": lambda g, l: g, "ls": lambda g, l: l}


def check_spectrum(p, d, op1, op2, name, spin, prob, last):
    n, T, nb, pre = 0, p.T, int(p.params["bins"]), oper.PREFIX[op1.kind]
    for alg, pr in p.algs(prob, last):
        f = PARTS.get(alg[-2:], lambda g, l: g + l)
        got = bins(os.path.join(d, "%s_%s_dens_%s.bin" % (pre, alg, name)), p.params.get("reim") == "true")
        if got is None: return "no %s spectral function %s_%s" % (alg, pre, name), n
        want = {w0: f(*x) for w0, x in oper.peaks(p, op1, op2, pr, spin).items()}
        if alg in ("FT", "DMNRG"): want, got = {w: x for w, x in want.items() if w}, [(w, x) for w, x in got if abs(w) > 0.02]    # outside the energy window
        tol = 1e-8 * max([1.0] + [abs(x) for x in want.values()])
        e = check_bins(got, want, nb, tol, "%s, %s_%s" % (alg, pre, name))
        if e and alg == "CFS" and not oper.fermionic(op1) and check_bins(got, known_cfs(p, op1, op2, last, spin), nb, tol, "CFS") is None:
            p.known, e = e, None
        if e: return e, n
        n += len(want)
    for alg in p.mats:
        got = c02.rows_of(os.path.join(d, "%s_%s_dens_%s.dat" % (pre, alg, name)))[1]
        want = oper.peaks(p, op1, op2, prob, spin)
        fer = oper.fermionic(op1)
        if len(got) != int(p.params["mats"]): return "%s, %s_%s: %d Matsubara frequencies" % (alg, pre, name, len(got)), n
        for k, (w, re, im) in enumerate(got):
            z, om = 0j, (2 * k + fer) * math.pi * T
            for w0, (g, l) in want.items():
                if om == 0 and w0 == 0: z -= g / T
                else: z += (g + l) / (1j * om - w0)
            if not c02.close(w, om, 1e-6) or abs(complex(re, im) - z) > 1e-7 * max(1, abs(z)): return "%s, %s_%s, Matsubara frequency %d: %r instead of %r" % (alg, pre, name, k, (w, re, im), z), n
            n += 1
    return None, n


def operators(rng, s, ch, kinds=None, cplx=False):
    """seed multiplets, operators between them, and the pairs for correlation functions"""
    name = s.name
    kinds = kinds or ["s"] + (["p"] if "z2" in s.types and name.endswith("LR") else []) + [k for k in oper.KINDS if name in oper.KINDS[k] and ch <= oper.MAXCH.get((k, name), 4) and not (ch >= 3 and (name, k) in BROKEN)]
    labels = [s.seed0]
    for k in kinds:
        if k in oper.KINDS:
            a = rng.choice(labels)
            for rep in oper.KINDS[k][name][:2]: labels.append(oper.apply_rep(rng, s, a, rep))
        elif k == "p": labels.append(oper.apply_rep(rng, s, labels[-1], tuple(int(t == "z2") for t in s.types)))
    if len(set(labels)) < 2 and s.spect: labels.append(s.spect[0])
    seed = []
    big = ch * s.spin >= 6 or (ch * s.spin == 4 and len(set(labels)) > 2)
    for c in sorted(set(labels))[:6]: seed.append((c, sorted(rng.sample(range(0, 5), 1 if big else rng.choice([1, 2]) if s.types else 3))))
    ops = [oper.make(rng, s, seed, k, "op" if k == "s" else k + "x", cplx=cplx) for k in kinds]
    corr = [(o, o) for o in ops]
    for k in kinds:
        if k != "s":
            o = [x for x in ops if x.kind == k][0]
            ops.append(oper.make(rng, s, seed, k, k + "y", cplx=cplx))
            corr.append((o, ops[-1]))
    return seed, ops, corr


def requests(s, corr):
    par = {}
    for a, b in corr:
        for name, spin in oper.spectra(s, a, b): par.setdefault(oper.PARAM[a.kind], []).append(name)
    return {k: " ".join(v) for k, v in par.items()}


PROBE = 7
# operators of three-channel chains whose tables contain entries 0/0 at small spins (known findings; probed separately)
BROKEN = {("QS", "t"), ("QSTZ", "t"), ("SPSU2T", "t"), ("SPSU2T", "d")}


CPLX = (("QS", 1), ("QSZ", 1), ("U1", 1), ("NONE", 1), ("SPSU2", 1), ("SPU1", 1), ("P", 1), ("SL", 2), ("QS", 2))


def problems(ck):
    rng, P, q = ck.rng, [], ck.quick

    def one(n, ch, tag="", nb=None, scaled=False, cf=1, kinds=None, cplx=None, **par):
        s = SYMS[n]
        m = ch * s.spin
        N = {1: 6, 2: 5, 3: 4, 4: 3, 6: 2}[m] - (m == 4 and sum(t == "su2" for t in s.types) + 2 * (n == "QS") < 2)
        nt = (1 if s.same else ch) * cf
        seed, ops, corr = operators(rng, s, ch, kinds, bool(cplx))
        blocks, left = [], N
        hop = lambda: [rng.choice([1, 2, 3]) for _ in range(nt)]
        site = lambda: [0 if s.ph else rng.randint(-3, 3) for _ in range(nt)]
        while left:
            kind = "dimer" if left >= 2 and (rng.random() < (0.75 if s.ph else 0.4)) else "site"
            blocks.append((kind, hop() if kind == "dimer" else site()))
            left -= 2 if kind == "dimer" else 1
        if s.same: blocks = [(k, v * ch if len(v) == 1 else [v[0]] * ch + [v[1]] * ch) for k, v in blocks]
        par = dict({"Lambda": 2, "prec_td": 17, "width_td": 30, "prec_custom": 17, "width_custom": 30, "prec_xy": 17, "savebins": "true", "broaden": "false", "bins": 300,
                    "fdm": "true", "fdmgt": "true", "fdmls": "true", "cfs": "true", "fdmmats": "true", "mats": 4, "fdmexpv": "true", "fdmexpvn": 0, "ops": "op", "checkrho": "true"}, **par)
        T = rng.choice([0.6, 1.3, 2.5])
        par["T"] = repr(T)
        par["Lambda"] = rng.choice([1.5, 1.2, 2])
        par.update({"emin": 0.01, "emax": 100})
        if rng.random() < 0.6 and m < 6: par["keepall"] = "0"      # customfdm is measured at the step 0, which must not discard anything
        if scaled: par["absolute"] = "false"
        ke = rng.choice([1.43, 2.57, 3.61] if m <= 3 else [0.7, 1.43] if m == 4 else [0.43, 0.7])
        par["keepenergy"], par["keepmin"], par["keep"], par["safeguardmax"] = repr(ke), 1, 100000, 100000
        par.update(requests(s, corr))
        if cplx: par["reim"] = "true"
        P.append(Trunc(n, ch, blocks, seed, ops, T, ke, params=par, tag=tag, coeffactor=cf, cplx=cplx))
        P[-1].corr = corr
    for n, s in SYMS.items():
        if n == "ISO2LR": continue
        for ch in s.channels:
            if ch == 4: continue
            for r in range(1 if ch * s.spin > 4 or q else 2): one(n, ch, "-%d" % r)
    for n, ch in (("QS", 1), ("QSZ", 2), ("SPSU2", 1), ("ISO", 2), ("SL", 3), ("NONE", 1)):
        one(n, ch, "-scaled", scaled=True)
    for n, ch in CPLX: one(n, ch, "-complex", cplx=True)
    for n, ch in (("QSZ", 1), ("QSZ", 2), ("U1", 1), ("NONE", 1)): one(n, ch, "-pol", cf=2, polarized="true")
    keep, rng = rng, random.Random(PROBE)
    for n, k in sorted(BROKEN): one(n, 3, "-probe-" + k, kinds=["s", "d", "t"] if (n, k) == ("QS", "t") else ["s", k])
    rng = keep
    if not q:
        for r in range(40):
            n = rng.choice([x for x in SYMS if x != "ISO2LR"])
            one(n, rng.choice([c for c in SYMS[n].channels if c < 4]), "-r%d" % r)
    return P


def run(ck):
    exe = vlib.build_engine(os.path.join(ck.tmp, "eng"))
    probs = problems(ck)

    def tlc(p):
        r = vlib.tlc_must(ck, p.module(), CFG % (p.channels * p.sym.spin), workers=1, timeout=600)
        p.out = vlib.json_out(r, "fdm.json")
    vlib.par(tlc, probs)
    n = trunc = 0
    for p, (what, rep, k) in zip(probs, vlib.par(lambda p: compare(ck, p, exe), probs)):
        n += k
        if getattr(p, "known", None): ck.violation(p.known, "cfs-boson-sign", rep)
        if what: ck.violation(what, ("nan-factor:" if getattr(p, "nan", False) else "fdm:") + p.label, rep)
        else:
            ck.traces()
            trunc += sum(1 for sh in p.out[:-1] if sh) > 0
            if p.label in ("QS-1ch-N5-0", "ISO-1ch-N5-0", "SL-1ch-N6-0"): ck.sample("%s: blocks %s window %s T=%s: weights of the shells %s" % (p.label, p.blocks, p.ke, p.T, ["%.3g" % x for x in p.wn]))
    ck.extra["values_compared"] = n
    ck.extra["problems"] = len(probs)
    ck.extra["truncated_problems"] = trunc
