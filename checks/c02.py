"""C02: td, tdfdm, custom and customfdm are the canonical averages of the exact spectrum (FreeChain.tla)."""
import json, math, os, random
import vlib, eng
from eng import Problem, SYMS

# what the charges of the symmetry types are (J2, T2: 2m of an orbital su2 symmetry; z: discrete)
CH = {"QS": "Q S", "QSZ": "Q S", "ISO": "I S", "ISO2": "I S", "ISOSZ": "I S", "SPSU2": "S", "SPU1": "S", "U1": "Q", "SU2": "I", "NONE": "",
      "P": "z", "PP": "z z", "DBLQSZ": "Q1 Q2 S", "DBLSU2": "I1 I2", "DBLISOSZ": "I1 I2 S", "ISOLR": "I S z", "ISO2LR": "I S z", "ISOSZLR": "I S z",
      "SL": "Q", "SL3": "Q1 Q2 Q3", "SPSU2LR": "S z", "SPU1LR": "S z", "QSLR": "Q S z", "QSZLR": "Q S z", "QST": "Q S T2", "QSTZ": "Q S T",
      "QSZTZ": "Q S T", "SPSU2T": "S T2", "QSC3": "Q S z", "SPSU2C3": "S z", "QJ": "Q J2"}
GLOBAL = {"SPSU2": "Qtot Iztot Ixtot Iptot Imtot", "SPU1": "Qtot Iztot Ixtot Iptot Imtot", "SPU1LR": "Qtot Iztot", "NONE": "Qtot SZtot SXtot Iztot Ixtot",
          "P": "Qtot SZtot SXtot Iztot Ixtot", "PP": "Qtot SZtot SXtot Iztot Ixtot", "U1": "SZtot SXtot", "SL3": "Qtot N1 N2 N3", "DBLQSZ": "SZtot",
          "QSZ": "SZtot", "ISOSZ": "SZtot", "DBLISOSZ": "SZtot"}


# (the multiplets are counted by C01; occupations of single modes, tracked here as charges, do not respect the su2 symmetries)
CFG = "SPECIFICATION Spec\nCONSTANTS\n Problems <- MProblems\nINVARIANTS CountOK EmitThermo\nCHECK_DEADLOCK FALSE\n"


# (n - 1) for the three orbitals of a site together
ORB = ("QST", "QSTZ", "QSZTZ", "SPSU2T", "QSC3", "SPSU2C3", "QJ")


class Thermo(Problem):
    """sites: integer level energies per table (decoupled sites) or None (Krawtchouk chains)."""

    def __init__(self, *a, sites=None, ops=(), glob=(), fdm=None, proj=None, T=1.0, **k):
        self.sites, self.ops, self.glob, self.fdm, self.proj, self.T = sites, list(ops), list(glob), fdm, proj, T
        Problem.__init__(self, *a, **k)
        if sites: self.chain = [([0.0] * (self.N - 1), [float(x) for x in t]) for t in sites]
        if self.params.get("absolute") == "false": self.seedscale = scale(self.params, 0, channels=self.channels)
        self.names = CH[self.sym.name].split()
        assert len(self.names) == len(self.sym.types)
        self.levels = [(q, e) for q, es in self.seed for e in sorted(es)]
        s = self.sym
        self.extra = [(c, sp) for c in range(self.channels) for sp in ((1, -1) if s.spin == 2 else (1,))] if self.glob else []
        self.stag = bool(self.glob and self.theta is not None)     # staggered occupation (isospin x)
        nx = len(self.extra) + (1 if self.stag else 0)
        self.types = list(s.types) + ["u1"] * (1 + nx)             # symmetry charges, seed level, occupations
        self.ns = len(s.types)
        self.obs = self.observables()

    def table(self, c, sp):
        if self.sym.same: c = 0
        return c if (self.coeffactor == 1 or sp == 1) else c + self.channels

    def modes(self):
        s, res = self.sym, []
        for n in range(self.N):
            for c in range(self.channels):
                for sp in ((1, -1) if s.spin == 2 else (1,)):
                    if self.sites: e = self.sites[self.table(c, sp)][n]
                    else:
                        a, b = self.tables[self.table(c, sp)]
                        e = int(b + a * n)
                        if self.pairing is not None: e = math.isqrt(e * e + self.pairing ** 2)
                    x = [int((c, sp) == y) for y in self.extra] + ([(-1) ** n] if self.stag else [])
                    res.append({"e": e, "c": list(s.mode(c, sp)) + [0] + x, "v": [0] * len(self.types)})
                    if sp == 1 and (c == 0 or self.params.get("substeps")):
                        self.shift(res[-1], s.vac(1 if self.params.get("substeps") else self.channels))
        return res

    def per_site(self): return self.channels * self.sym.spin

    def marks(self):
        full = self.N * self.per_site()
        if not self.sites: return [full]
        if self.params.get("substeps"):
            m = list(range(self.sym.spin, full + 1, self.sym.spin))
        else: m = list(range(self.per_site(), full + 1, self.per_site()))
        return ([0] if self.params.get("calc0") else []) + m

    def observables(self):
        """name -> index into the observables of the specification"""
        z = [0] * len(self.types)
        obs = [{"lin": z, "pow": 0, "idx": 0, "val": [0]}]
        self.at = {"1": 0}

        def add(name, lin, pw):
            self.at[name] = len(obs)
            obs.append({"lin": lin, "pow": pw, "idx": 0, "val": [0]})
        for i, n in enumerate(self.names):
            u = list(z)
            u[i] = 1
            if n != "z":
                add(n, u, 1)
                add(n + "^2", u, 2)
        for i, (c, sp) in enumerate(self.extra):
            u = list(z)
            u[self.ns + 1 + i] = 1
            add("n%d%+d" % (c, sp), u, 1)
        if self.stag:
            u = list(z)
            u[-1] = 1
            add("stag", u, 1)
        for name, mats in self.ops:
            d = [m for q in mats for m in q["diag"]]
            self.at["op:" + name] = len(obs)
            obs.append({"lin": z, "pow": 1, "idx": self.ns + 1, "val": d})
        return obs

    def spec(self):
        s = self.sym
        nx = len(self.types) - self.ns
        base = [{"e": int(e), "c": list(q) + [j + 1] + [0] * (nx - 1)} for j, (q, e) in enumerate(self.levels)]
        flt = {"i": 1, "m": 0, "r": 0}
        if self.proj: flt = {"i": 1, "m": 2, "r": self.proj[1]}
        return vlib.tla({"modes": self.modes(), "types": self.types, "seed": base,
                         "thermo": {"marks": set(self.marks()), "obs": self.obs, "filter": flt}})

    def data(self):
        txt = Problem.data(self)
        head, tail = txt.split("\ne\n", 1)
        out = [head]
        lab = lambda q: " ".join(str(x) for x in self.sym.lab(q))
        for name, mats in self.ops:
            out += ["s" + name, "%d" % len(mats)]
            for (q, es), m in zip(self.seed, mats):
                out.append(lab(q) + "  " + lab(q))
                out += [" ".join(str(x) for x in r) for r in m["m"]]
        for name in self.glob:
            out += ["g" + name, "%d" % len(self.seed)]
            for q, es in self.seed:
                out.append(lab(q) + "  " + lab(q))
                out += [" ".join(["0"] * len(es))] * len(es)
        return "\n".join(out) + "\ne\n" + tail

    # ---- averages out of the traces of the specification
    def averages(self, th, T):
        """(ground state energy, Z relative to it, {name: average}), energy moments in units of T"""
        es = dict((e, w) for e, w in th["obs"][0])
        e0 = th["zero"]
        w = {e: math.exp(-(e - e0) / T) for e in es}
        Z = math.fsum(n * w[e] for e, n in es.items())
        av = {n: math.fsum(v * w[e] for e, v in th["obs"][i]) / Z for n, i in self.at.items()}
        av["E"] = math.fsum(n * w[e] * (e - e0) / T for e, n in es.items()) / Z
        av["E2"] = math.fsum(n * w[e] * ((e - e0) / T) ** 2 for e, n in es.items()) / Z
        return e0, Z, av

    def td(self, av, Z):
        res = {"<E>": av["E"], "<E^2>": av["E2"], "C": av["E2"] - av["E"] ** 2, "F": -math.log(Z), "S": av["E"] + math.log(Z)}
        for n in self.names:
            t = self.types[self.names.index(n)]
            if n == "S": res["<Sz^2>"] = av["S^2"] / 4
            if n == "S" and t == "u1": res["<Sz>"] = av["S"] / 2
            if n == "J2": res["<Jz^2>"] = av["J2^2"] / 4
            if n == "T2": res["<Tz^2>"] = av["T2^2"] / 4
            if n == "T": res["<Tz^2>"] = av["T^2"]
            if n == "T" and self.sym.name == "QSZTZ": res["<Tz>"] = av["T"]
            if n == "I": res["<Q^2>"] = av["I^2"]
            if n in ("I1", "I2"): res["<Q%s^2>" % n[1]] = av[n + "^2"]
            if n[0] == "Q":
                res["<%s>" % n], res["<%s^2>" % n] = av[n], av[n + "^2"]
                if self.sym.spin == 1: res["<s%s^2>" % n] = av[n + "^2"] - av[n] ** 2
        return res

    def custom(self, av, nsites):
        res = {name: av["op:" + name] for name, _ in self.ops}
        if not self.glob: return res
        n = {(c, sp): av["n%d%+d" % (c, sp)] for c, sp in self.extra}
        tot, m = sum(n.values()), sum(sp * v for (c, sp), v in n.items()) / 2
        q = tot - nsites                                  # relative to half filling (spinful)
        qz = q * (math.cos(self.theta) if self.theta is not None else 1)
        for g in self.glob:
            if g == "Qtot": res[g] = qz if self.sym.spin == 2 else tot - nsites
            if g == "Iztot": res[g] = qz / 2
            if g in ("Ixtot", "Iptot", "Imtot"):     # real parts
                res[g] = 0.0 if self.theta is None else self.isox(av, nsites) * math.cos(self.scphase)
            if g == "Iytot": res[g] = 0.0 if self.theta is None else -self.isox(av, nsites) * math.sin(self.scphase)   # H has conj(delta) |0><2|
            if g == "SYtot": res[g] = 0.0 if self.spinrot is None else m * -math.sin(2 * self.spinrot) * math.sin(self.phase)     # H has zetaDOUP |down><up|
            if g == "SZtot": res[g] = m * (math.cos(2 * self.spinrot) if self.spinrot is not None else 1)
            if g == "SXtot": res[g] = 0.0 if self.spinrot is None else m * math.sin(2 * self.spinrot) * math.cos(self.phase)
            if g[0] == "N": res[g] = n[(int(g[1]) - 1, 1)] - nsites / self.channels
            if g in ("Q1", "Q2"): res[g] = sum(v for (c, sp), v in n.items() if c == int(g[1]) - 1)       # total number
            if g == "Qdiff": res[g] = sum((2 * c - 1) * v for (c, sp), v in n.items())
            if g in ("Q1UP", "Q1DO", "Q2UP", "Q2DO"): res[g] = n[(int(g[1]) - 1, 1 if g[2:] == "UP" else -1)]
            if g in ("Q1u", "Q1d"): res[g] = n[(0, 1 if g[2] == "u" else -1)] - nsites / 2
        return res

    def isox(self, av, nsites):
        # staggered occupation relative to half filling, sites 0, 1, ... with signs +, -, ...
        per = self.channels
        k = nsites // per
        st = av["stag"] - per * (k % 2)
        return -math.sin(self.theta) * st / 2


def scale(P, N, channels):
    """documented energy scale after the site N-1 has been added"""
    L, d, z, sub = float(P.get("Lambda", 2)), P.get("discretization", "Z"), float(P.get("z", 1)), P.get("substeps")
    s = 0.5 * (1 + 1 / L) if d == "Y" else (1 - 1 / L) / math.log(L)
    s *= L ** (-(N - 1) / 2 + 1 - z) if not sub else L ** (-N / (2.0 * channels) + 1.5 - z)
    return s * float(P.get("bandrescale", 1))


def problems(ck):
    rng, P, q = ck.rng, [], ck.quick

    def seed_ops(s, nops, multi=True):
        qs = [s.seed0] + list(s.spect)
        seed, ops = [], []
        for j, c in enumerate(qs[:3]):
            n = rng.choice([1, 2, 2, 3]) if multi else 1
            seed.append((c, sorted(rng.sample(range(0, 7), n))))
        for o in range(nops):
            mats = []
            for c, es in seed:
                n = len(es)
                m = [[0] * n for _ in range(n)]
                for a in range(n):
                    for b in range(a, n): m[a][b] = m[b][a] = rng.randint(-6, 6)
                mats.append({"m": m, "diag": [m[a][a] for a in range(n)]})
            ops.append(("op%d" % o, mats))
        return seed, ops

    def tabs(s, ch, N, cf):
        f = lambda: [rng.randint(-4, 4) for _ in range(N)]
        if s.ph: f = lambda: [0] * N
        if s.same:
            t = [f()] * ch
            return t * cf
        return [f() for _ in range(ch * cf)]

    def one(n, ch, tag, N=None, sites=True, cf=1, nops=1, glob="", fdm=False, proj=None, theta=None, spinrot=None, phase=0.0, params=None, pairing=None, cplx=None, scphase=0.0):
        s = SYMS[n]
        N = N or (3 if ch * s.spin <= 2 else 2)
        seed, ops = seed_ops(s, nops)
        par = {"Lambda": rng.choice([2, 3, 4]), "calc0": "true", "discretization": rng.choice("YCZ"), "z": rng.choice([1, 0.5]), "prec_td": 17, "width_td": 30, "prec_custom": 17, "width_custom": 30}
        if not sites: par.pop("calc0")
        par.update(params or {})
        T = rng.choice([0.7, 1.4, 3.0])        # temperature at the last step
        nst = N * ch if par.get("substeps") else N
        par["betabar"] = repr(scale(par, nst, ch) / T)
        par["ops"] = " ".join([o for o, _ in ops] + glob.split())
        Tf = rng.choice([0.5, 1.1, 2.3])
        if fdm: par.update({"fdm": "true", "T": repr(Tf), "fdmexpv": "true", "fdmexpvn": rng.randrange(N) if sites else N - 1})
        if proj: par["project"] = proj[0]
        st = tabs(s, ch, N, min(cf, 2)) if sites else None
        if sites: tb = [(0, 0)] * (ch * cf)
        else:
            import c01
            tb = [(3, -3)] * (ch * cf) if pairing else c01.tables(s, ch, N, rng) * cf
        if cf == 4 and sites: st = st + [[0] * N] * (2 * ch)
        P.append(Thermo(n, ch, N, tb, seed=seed, ops=ops, glob=glob.split(), sites=st, fdm=Tf if fdm else None, proj=proj, T=T, params=par,
                        coeffactor=cf, theta=theta, spinrot=spinrot, phase=phase, pairing=pairing, cplx=cplx, scphase=scphase, tag=tag))

    for n, s in SYMS.items():
        if n == "ISO2LR": continue       # known finding of C01: wrong spectrum
        for ch in s.channels:
            if ch == 4: one(n, ch, "", N=1)
            else:
                one(n, ch, "", fdm=rng.random() < 0.6)
                if s.ph or not q: one(n, ch, "-hop", sites=False, fdm=True)
    for n, g in GLOBAL.items():
        s = SYMS[n]
        for ch in s.channels:
            if ch > 2 and s.spin == 2: continue
            if n not in ("ISOSZ", "DBLISOSZ"): one(n, ch, "-global", glob=g, fdm=rng.random() < 0.5)
            else: one(n, ch, "-global", glob=g, sites=False)
    for n in ("SPSU2", "SPU1"):
        for ch in (1, 2): one(n, ch, "-globalsc", glob=GLOBAL[n], theta=rng.uniform(0.2, 1.3))
    for n, chs in (("NONE", (1, 2)), ("P", (1, 2)), ("PP", (2,))):
        for ch in chs:
            one(n, ch, "-globalsc", glob=GLOBAL[n] + " Iptot Imtot", theta=rng.uniform(0.2, 1.3))
            one(n, ch, "-globalscc", glob=GLOBAL[n] + " Iptot Imtot Iytot SYtot", theta=rng.uniform(0.2, 1.3), scphase=rng.uniform(0.2, 3), cplx=True)
    for n, g in GLOBAL.items():
        if n in ("ISOSZ", "DBLISOSZ"): continue
        for ch in SYMS[n].channels:
            if n not in ("SPSU2", "U1") or ch < 3: one(n, ch, "-globalhop", glob=" ".join(x for x in g.split() if x[0] != "I"), sites=False, fdm=True)
    for ch in (1, 2): one("U1", ch, "-2x2c", cf=4, glob="SZtot SXtot SYtot", spinrot=rng.uniform(0.2, 1.3), phase=rng.uniform(0.3, 2.8), N=2, cplx=True)
    for ch in (1, 2): one("U1", ch, "-2x2", cf=4, glob="SZtot SXtot", spinrot=rng.uniform(0.2, 1.3), N=2)
    for n, ch, g in (("QS", 2, "Qtot Q1 Q2 Qdiff"), ("SPSU2", 2, "Q1 Q2 Qdiff"), ("SPU1", 2, "Q1 Q2 Qdiff Q1UP Q1DO Q2UP Q2DO"), ("QSZ", 1, "Q1u Q1d"), ("SL", 2, "Qtot Qdiff"), ("SL", 3, "N1 N2 N3")):
        one(n, ch, "-chan", glob=g)
    for n, chs in (("QSZ", (1, 2)), ("U1", (1, 2)), ("SPU1", (1, 2)), ("NONE", (1, 2)), ("P", (1, 2)), ("PP", (2,))):
        for ch in chs: one(n, ch, "-pol", cf=2, glob="SZtot" if n not in ("SPU1",) else "")
    for n, pr in (("QS", ("evenQ", 0)), ("QS", ("oddQ", 1)), ("SPSU2", ("even", 0)), ("SPSU2", ("odd", 1)), ("QS", ("trivial", None))):
        one(n, 1, "-" + pr[0], proj=pr if pr[1] is not None else None, params={"project": pr[0]}, N=2 if n == "QS" else 3)
    for n, ch in (("QS", 2), ("QSZ", 2), ("SPSU2", 2), ("SPU1", 2)):
        one(n, ch, "-sub", params={"substeps": "true"})
    for n, ch in (("QS", 1), ("QSZ", 2), ("SPSU2", 1), ("ISO", 1), ("NONE", 1), ("SL", 2)):
        one(n, ch, "-scaled", params={"absolute": "false", "bandrescale": rng.choice([1, 2])}, fdm=n in ("QS", "NONE"))
    for n in ("SPSU2", "NONE"): one(n, 1, "-pair", sites=False, pairing=4, N=3)
    for n, ch in (("QS", 1), ("U1", 2), ("SPU1", 1)): one(n, ch, "-complex", cplx=True)
    if not q:
        for rep in range(12):
            n = rng.choice([x for x in SYMS if x != "ISO2LR"])
            one(n, rng.choice([c for c in SYMS[n].channels if c < 4]), "-r%d" % rep, fdm=True, nops=2)
    return P


def close(a, b, tol=2e-8): return abs(a - b) <= tol * max(1.0, abs(b))


def rows_of(path):
    names, rows = None, []
    for line in open(path):
        if line.startswith("#"):
            f = line[1:].split()
            if not all(x.isdigit() for x in f): names = f
        elif line.strip(): rows.append([float(x.strip("()").split(",")[0]) for x in line.split()])
    return names, rows


def compare(ck, p, exe):
    d = os.path.join(ck.tmp, "run", p.label)
    r = eng.run_engine(exe, d, p.data(), p.param(), timeout=240)
    rep = {"data": p.data(), "param": p.param(), "stdout": r.stdout[-20000:], "stderr": r.stderr[-4000:]}
    if not r.ok: return "%s: the run did not complete (exit %s)" % (p.label, r.returncode), rep, 0
    for f in ("td", "tdfdm", "custom", "customfdm"):
        if os.path.exists(os.path.join(d, f)): rep[f] = open(os.path.join(d, f)).read()
    per = p.per_site()
    nch = p.channels if not p.params.get("substeps") else 1
    names, rows = rows_of(os.path.join(d, "td"))
    if len(rows) != (len(p.marks()) if p.sites else p.N): return "%s: td has %d rows" % (p.label, len(rows)), rep, 0
    n = 0
    cn = cr = None
    if p.ops or p.glob:
        cn, cr = rows_of(os.path.join(d, "custom"))
        if len(cr) != len(rows): return "%s: custom has %d rows, td %d" % (p.label, len(cr), len(rows)), rep, 0
    first = 0 if p.params.get("calc0") else 1
    for i, k in enumerate(p.marks()):
        row = dict(zip(names, rows[i] if p.sites else rows[-1]))
        step = (i + first if p.sites else p.N)
        T = scale(p.params, step, p.channels) / float(p.params["betabar"])
        if not close(row["T"] / T, 1): return "%s: row %d: temperature %r instead of %r" % (p.label, i, row["T"], T), rep, n
        nsites = k // p.sym.spin
        e0, Z, av = p.averages(p.thermo[k], T)
        if Z <= 0: continue
        want = p.td(av, Z)
        if set(want) | {"T"} != set(names): return "%s: columns %s instead of %s" % (p.label, names, sorted(want)), rep, n
        for c, v in want.items():
            if not close(row[c], v): return "%s: row %d (T=%g): %s=%r instead of %r" % (p.label, i, T, c, row[c], v), rep, n
            n += 1
        if cn:
            row = dict(zip(cn, cr[i] if p.sites else cr[-1]))
            want = p.custom(av, nsites)
            for c, v in want.items():
                if c not in row or not close(row[c], v): return "%s: custom row %d: <%s>=%r instead of %r" % (p.label, i, c, row.get(c), v), rep, n
                n += 1
    if p.fdm:
        k = p.marks()[-1]
        e0, Z, av = p.averages(p.thermo[k], p.fdm)
        names, rows = rows_of(os.path.join(d, "tdfdm"))
        row = dict(zip(names, rows[-1]))
        # the on-site terms of the chain are zeta (n - n_half): half filling is the zero of energy
        e0 -= sum(m["e"] for m in p.modes()) / 2 / (p.channels if p.sym.name in ORB else 1)
        F = e0 - p.fdm * math.log(Z)
        E = e0 + p.fdm * av["E"]
        want = {"T": p.fdm, "F_fdm": F, "E_fdm": E, "C_fdm": av["E2"] - av["E"] ** 2, "S_fdm": (E - F) / p.fdm}
        for c, v in want.items():
            if not close(row[c], v): return "%s: tdfdm: %s=%r instead of %r" % (p.label, c, row[c], v), rep, n
            n += 1
        names, rows = rows_of(os.path.join(d, "customfdm"))
        row = dict(zip(names, rows[-1]))
        # measured at the step fdmexpvn: local operators are conserved by the chain, global ones have grown up to that step
        step = p.params["fdmexpvn"]
        if p.sites or step == p.N - 1:
            k = per * (step + 1)
            want = p.custom(p.averages(p.thermo[k], p.fdm)[2], k // p.sym.spin)
            for c, v in want.items():
                if not close(row[c], v): return "%s: customfdm: <%s>=%r instead of %r" % (p.label, c, row[c], v), rep, n
                n += 1
    return None, rep, n


def run(ck):
    exe = vlib.build_engine(os.path.join(ck.tmp, "eng"))
    probs = problems(ck)

    def thermo(part):
        mod = "---- MODULE MC ----\nEXTENDS FreeChain\nMProblems == <<\n%s>>\n====\n" % ",\n".join(p.spec() for p in part)
        r = vlib.tlc_must(ck, mod, CFG, workers=1, timeout=850 if ck.quick else 7000)
        for i, p in enumerate(part):
            p.thermo = {k: vlib.json_out(r, "thermo%d_%d.json" % (i + 1, k)) for k in p.marks()}
    import time
    t0 = time.time()
    order = sorted(probs, key=lambda p: -len(p.modes()))
    vlib.par(thermo, [[p] for p in order])      # TLC evaluates the constant anew for every reference: one problem per run is fastest
    ck.extra["tlc_seconds"] = round(time.time() - t0)
    n = 0
    for p, (what, rep, k) in zip(probs, vlib.par(lambda p: compare(ck, p, exe), probs)):
        n += k
        if what: ck.violation(what, "thermo:" + p.label, rep)
        else:
            ck.traces()
            if p.label in ("QS-1ch-N3", "SPSU2-1ch-N3-globalsc", "SL-1ch-N3-global"): ck.sample("%s: seed %s sites %s betabar %s: %d values" % (p.label, p.seed, p.sites, p.params["betabar"], k))
    ck.extra["engine_seconds"] = round(time.time() - t0 - ck.extra["tlc_seconds"])
    ck.extra["values_compared"] = n
    ck.extra["problems"] = len(probs)
