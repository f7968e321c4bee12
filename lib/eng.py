"""Driving the nrg executable: chains whose exact solution FreeChain.tla knows.

A `problem' is: symmetry type, channels, chain length N, per-table Krawtchouk parameters (a,b)
(one-particle energies b + a*k, k=0..N-1: exact integers), seed multiplets.  From it we write the
data/param files for the engine and the constants for the specification.
"""
import tempfile, cmath, collections, math, os, re, shutil
import vlib

# type: charge kinds; m(ch, spin): charges of a one-particle mode of channel ch with spin +-1 (su2: 2m)
# lab: charges -> label printed by the engine; per: operators per channel (perchannel)
U, S2, Z2, Z3 = "u1", "su2", "z2", "z3"


def _par(z):
    return 1 - 2 * z


class Sym:
    def __init__(self, name, types, channels, mode, vac, lab, seed0, per=1, spin=2, same=False, ph=False, cplx=False,
                 td=(), spect=(), sc=False):
        self.name, self.types, self.channels, self.mode, self.vac, self.lab = name, types, channels, mode, vac, lab
        self.per, self.spin, self.same, self.ph, self.cplx, self.seed0, self.td = per, spin, same, ph, cplx, seed0, td
        self.sc = sc             # needs superconducting tables
        self.spect = spect   # extra seed multiplets, as charges (highest weight)


# mode charges: functions (c, s) with c channel index 0.., s=+1/-1
SYMS = {}


def _add(*a, **k):
    s = Sym(*a, **k)
    SYMS[s.name] = s


# vac(n): charges of the empty chain with n = number of (site, channel) pairs, relative to the seed
_add("QS", [U, S2], (1, 2, 3, 4), lambda c, s: (1, s), lambda n: (-n, 0), lambda q: (q[0], q[1] + 1), (0, 0), spect=[(1, 1), (0, 2), (-1, 3)])
_add("QSZ", [U, U], (1, 2, 3), lambda c, s: (1, s), lambda n: (-n, 0), lambda q: (q[0], q[1] + 1), (0, 0), spect=[(1, 1), (0, 2), (2, -3)])
_add("ISO", [S2, S2], (1, 2, 3), lambda c, s: (1, s), lambda n: (-n, 0), lambda q: (q[0] + 1, q[1] + 1), (0, 0), ph=True, spect=[(1, 1), (0, 2), (2, 1)])
_add("ISO2", [S2, S2], (1, 2), lambda c, s: (1, s), lambda n: (-n, 0), lambda q: (q[0] + 1, q[1] + 1), (0, 0), ph=True, spect=[(1, 1), (0, 2), (2, 1)])
_add("ISOSZ", [S2, U], (1, 2), lambda c, s: (1, s), lambda n: (-n, 0), lambda q: (q[0] + 1, q[1] + 1), (0, 0), ph=True, spect=[(1, 1), (0, 2), (2, -1)])
_add("SPSU2", [S2], (1, 2, 3), lambda c, s: (s,), lambda n: (0,), lambda q: (q[0] + 1,), (0,), spect=[(1,), (2,), (3,)], sc=True)
_add("SPU1", [U], (1, 2), lambda c, s: (s,), lambda n: (0,), lambda q: (q[0] + 1,), (0,), spect=[(1,), (-2,)], sc=True)
_add("U1", [U], (1, 2, 3), lambda c, s: (1,), lambda n: (-n,), lambda q: (q[0],), (0,), per=2, spect=[(1,), (-2,)])
_add("SU2", [S2], (1, 2), lambda c, s: (1,), lambda n: (-n,), lambda q: (q[0] + 1,), (0,), per=2, ph=True, spect=[(1,), (2,)])
_add("NONE", [], (1, 2), lambda c, s: (), lambda n: (), lambda q: (0,), (), per=4, sc=True)
_add("P", [Z2], (1, 2), lambda c, s: (1,), lambda n: (0,), lambda q: (_par(q[0]),), (0,), per=4, spect=[(1,)], sc=True)
_add("PP", [Z2, Z2], (2,), lambda c, s: (1 - c, c), lambda n: (0, 0), lambda q: (_par(q[0]), _par(q[1])), (0, 0), per=4, spect=[(1, 0), (0, 1)], sc=True)
_add("DBLQSZ", [U, U, U], (2,), lambda c, s: (1 - c, c, s), lambda n: (-n // 2, -n // 2, 0), lambda q: (q[0], q[1], q[2] + 1), (0, 0, 0), spect=[(1, 0, 1), (0, -2, 2)])
_add("DBLSU2", [S2, S2], (2,), lambda c, s: (1 - c, c), lambda n: (-n // 2, -n // 2), lambda q: (q[0] + 1, q[1] + 1), (0, 0), per=2, ph=True, spect=[(1, 0), (0, 2)])
_add("DBLISOSZ", [S2, S2, U], (2,), lambda c, s: (1 - c, c, s), lambda n: (-n // 2, -n // 2, 0), lambda q: (q[0] + 1, q[1] + 1, q[2] + 1), (0, 0, 0), ph=True, spect=[(1, 0, 1), (0, 2, 2)])
_add("ISOLR", [S2, S2, Z2], (2,), lambda c, s: (1, s, c), lambda n: (-n, 0, 0), lambda q: (q[0] + 1, q[1] + 1, _par(q[2])), (0, 0, 0), same=True, ph=True, spect=[(1, 1, 1), (0, 2, 0)])
_add("ISO2LR", [S2, S2, Z2], (2,), lambda c, s: (1, s, c), lambda n: (-n, 0, 0), lambda q: (q[0] + 1, q[1] + 1, _par(q[2])), (0, 0, 0), same=True, ph=True, spect=[(1, 1, 1), (0, 2, 0)])
_add("ISOSZLR", [S2, U, Z2], (2,), lambda c, s: (1, s, c), lambda n: (-n, 0, 0), lambda q: (q[0] + 1, q[1] + 1, _par(q[2])), (0, 0, 0), same=True, ph=True, spect=[(1, 1, 1), (0, 2, 0)])
_add("SL", [U], (1, 2, 3), lambda c, s: (1,), lambda n: (-n,), lambda q: (q[0],), (0,), spin=1, spect=[(1,), (-2,)])
_add("SL3", [U, U, U], (3,), lambda c, s: tuple(int(i == c) for i in range(3)), lambda n: (-n // 3,) * 3, lambda q: q, (0, 0, 0), spin=1, spect=[(1, 0, 0), (0, -1, 2)])
_add("SPSU2LR", [S2, Z2], (2,), lambda c, s: (s, c), lambda n: (0, 0), lambda q: (q[0] + 1, _par(q[1])), (0, 0), same=True, spect=[(1, 1), (2, 0)], sc=True)
_add("SPU1LR", [U, Z2], (1, 2), lambda c, s: (s, c), lambda n: (0, 0), lambda q: (q[0] + 1, _par(q[1])), (0, 0), same=True, spect=[(1, 1), (-2, 0)], sc=True)
_add("QSLR", [U, S2, Z2], (2,), lambda c, s: (1, s, c), lambda n: (-n, 0, 0), lambda q: (q[0], q[1] + 1, _par(q[2])), (0, 0, 0), same=True, spect=[(1, 1, 1), (0, 2, 0)])
_add("QSZLR", [U, U, Z2], (2,), lambda c, s: (1, s, c), lambda n: (-n, 0, 0), lambda q: (q[0], q[1] + 1, _par(q[2])), (0, 0, 0), same=True, spect=[(1, 1, 1), (0, -2, 0)])
_add("QST", [U, S2, S2], (3,), lambda c, s: (1, s, 2 * (c - 1)), lambda n: (-n, 0, 0), lambda q: (q[0], q[1] + 1, q[2] // 2), (0, 0, 0), same=True, spect=[(1, 1, 2)])
_add("QSTZ", [U, S2, U], (3,), lambda c, s: (1, s, c - 1), lambda n: (-n, 0, 0), lambda q: (q[0], q[1] + 1, q[2]), (0, 0, 0), same=True, spect=[(1, 1, 1)])
_add("QSZTZ", [U, U, U], (3,), lambda c, s: (1, s, c - 1), lambda n: (-n, 0, 0), lambda q: (q[0], q[1] + 1, q[2]), (0, 0, 0), same=True, spect=[(1, 1, 1)])
_add("SPSU2T", [S2, S2], (3,), lambda c, s: (s, 2 * (c - 1)), lambda n: (0, 0), lambda q: (q[0] + 1, q[1] // 2), (0, 0), same=True, spect=[(1, 2)], sc=True)
_add("QSC3", [U, S2, Z3], (3,), lambda c, s: (1, s, c), lambda n: (-n, 0, 0), lambda q: (q[0], q[1] + 1, q[2]), (0, 0, 0), same=True, cplx=True, spect=[(1, 1, 1)])
_add("SPSU2C3", [S2, Z3], (3,), lambda c, s: (s, c), lambda n: (0, 0), lambda q: (q[0] + 1, q[1]), (0, 0), same=True, cplx=True, spect=[(1, 1)], sc=True)
# j=1/2 (2 modes) and j=3/2 (4 modes): (c, s) enumerates 2m = -3,-1,1,3 and -1,1
_add("QJ", [U, S2], (3,), lambda c, s: (1, [(-1, 1), (-3, 3), (-1, 1)][c][(s + 1) // 2]), lambda n: (-n, 0), lambda q: (q[0], q[1] + 1), (0, 0), same=True, spect=[(1, 1)])


def kraw(N, a, b):
    """hopping, onsite of the Krawtchouk chain with one-particle energies b + a*k."""
    return [a / 2.0 * math.sqrt(n * (N - n)) for n in range(1, N)], [b + a * (N - 1) / 2.0] * N


class Problem:
    """tables: list of (a, b) per coefficient table (channels * coeffactor)."""

    def __init__(self, sym, channels, N, tables, seed=None, coeffactor=1, params=None, label="", theta=None, cplx=None, spinrot=None, phase=0.0, rung=None, pairing=None, tag="", chain=None, scphase=0.0, gauge=None, gsign=(1, 1, 1)):
        self.gauge, self.gsign = gauge, gsign
        self.seedscale = 1.0     # unit of the energies of the seed in the file
        self.scphase = scphase   # common complex phase of all pairing terms (needs complex data)
        self.chain = chain       # explicit (xi, zeta) tables instead of Krawtchouk chains
        self.pairing = pairing   # on-site pairing delta for a chain with zero on-site energies: E = sqrt(e^2 + delta^2)
        self.sym, self.channels, self.N, self.tables = SYMS[sym], channels, N, tables
        self.coeffactor = coeffactor
        self.seed = seed or [(self.sym.seed0, [0])]      # list of (charges highest weight, [integer energies])
        self.params = params or {}
        self.theta = theta       # angle of the particle-hole (Nambu) rotation: equivalent superconducting chain
        self.phase = phase       # complex phase of the spin rotation (needs complex data)
        self.spinrot = spinrot   # angle of the rotation between spin up and down (needs pol2x2)
        self.rung = rung         # angle of the rotation between the channels (needs rungs)
        self.cplx = self.sym.cplx if cplx is None else cplx
        self.label = label or "%s-%dch-N%d%s" % (sym, channels, N, tag)

    def coefs(self):
        """coefficient tables (xi, zeta), plus the rung tables, plus (delta, kappa) tables."""
        co = self.chain or [kraw(self.N, a, b) for a, b in self.tables]
        ch = self.channels

        def lin(c1, t1, c2, t2):
            return [[c1 * x + c2 * y for x, y in zip(t1[k], t2[k])] for k in (0, 1)]
        def phased(t, phi):
            return t if phi == 0 else [[cmath.exp(1j * phi) * x for x in v] for v in t]
        if self.spinrot is not None:
            c, s = math.cos(self.spinrot), math.sin(self.spinrot)
            up, do = co[:ch], co[ch:]
            mix = [lin(c * s, u, -c * s, d) for u, d in zip(up, do)]
            co = [lin(c * c, u, s * s, d) for u, d in zip(up, do)] + [lin(s * s, u, c * c, d) for u, d in zip(up, do)] + \
                [phased(m, self.phase) for m in mix] + [phased(m, -self.phase) for m in mix]
        rung = None
        if self.rung is not None:
            c, s = math.cos(self.rung), math.sin(self.rung)
            t1, t2 = co
            m = lin(c * s, t1, -c * s, t2)
            co = [lin(c * c, t1, s * s, t2), lin(s * s, t1, c * c, t2)]
            rung = [m, m]
        sc = None
        if self.theta is not None:
            c, s = math.cos(self.theta), math.sin(self.theta)
            sc = [lin(s, t, 0, t) for t in co]
            co = [lin(c, t, 0, t) for t in co]
        elif self.pairing is not None:
            sc = [([0.0] * (self.N - 1), [float(self.pairing)] * self.N) for t in co]
        elif self.sym.sc:
            sc = [lin(0, t, 0, t) for t in co]
        if self.gauge:     # c_n -> exp(i phi_n) c_n; site 0 of the tables is the first site added
            g = [cmath.exp(1j * x) for x in self.gauge]
            s1, s2, s3 = self.gsign
            cj = lambda z, s: z if s > 0 else z.conjugate()
            co = [[[x * cj(g[n] * g[n + 1].conjugate(), s1) for n, x in enumerate(t[0])], t[1]] for t in co]
            if rung: rung = [[[x * cj(g[n] * g[n + 1].conjugate(), s1) for n, x in enumerate(t[0])], t[1]] for t in rung]
            if sc: sc = [[[x * cj(g[n] * g[n + 1], s2) for n, x in enumerate(t[0])], [x * cj(g[n] ** 2, s3) for n, x in enumerate(t[1])]] for t in sc]
        if sc: sc = [phased(t, self.scphase) for t in sc]
        return co, rung, sc

    # ---- engine side
    def data(self):
        s = self.sym
        out = ["# symtype %s" % s.name] + (["# COMPLEX"] if self.cplx else []) + ["#!9", "%d %d %d" % (self.channels, self.N, len(self.seed))]
        e0 = min(e for q, es in self.seed for e in es)     # the file has energies relative to the ground state
        for q, es in self.seed:
            es = [(e - e0) / self.seedscale for e in sorted(es)]
            out += [" ".join(str(x) for x in s.lab(q)), str(len(es)), " ".join("%.17g" % e for e in es)]
        # the seed is decoupled from the chain: all matrix elements of the hopping operators vanish
        zero = ["%d" % (len(self.seed) ** 2)]
        for q1, e1 in self.seed:
            for q2, e2 in self.seed:
                zero.append(" ".join(str(x) for x in s.lab(q1)) + "  " + " ".join(str(x) for x in s.lab(q2)))
                zero += [" ".join(["0"] * len(e2))] * len(e1)
        for i in range(self.channels):
            for j in range(s.per):
                out += ["f %d %d" % (i, j)] + zero
        out += ["e", "%.17g" % e0, "z"]
        co, rung, sc = self.coefs()

        def table(v):
            return ["%d" % self.N] + [("(%.17g,%.17g)" % (x.real, x.imag)) if isinstance(x, complex) else "%.17g" % x for x in v]
        for xi, zeta in co: out += table([0.0] + xi + [0.0])
        for xi, zeta in co: out += table([0.0] + zeta)
        if sc:
            out.append("Z")
            for xi, zeta in sc: out += table([0.0] + zeta)           # delta: on site
            for xi, zeta in sc: out += table([0.0] + xi + [0.0])     # kappa: between sites
        if rung:
            out.append("X")
            for xi, zeta in rung: out += table([0.0] + xi + [0.0])
            for xi, zeta in rung: out += table([0.0] + zeta)
        return "\n".join(out) + "\n"

    def param(self, extra=None):
        p = {"symtype": self.sym.name, "Lambda": 2, "keep": 1000000, "absolute": "true", "dumpabsenergies": "true",
             "dumpenergies": "true", "dumpsubspaces": "true", "calc0": "false", "prec_td": 17}
        if self.coeffactor == 2: p["polarized"] = "true"
        if self.coeffactor == 4: p["pol2x2"] = "true"
        if self.rung is not None: p["rungs"] = "true"
        p.update(self.params)
        p.update(extra or {})
        return "[param]\n" + "".join("%s=%s\n" % kv for kv in p.items())

    # ---- specification side
    def modes(self):
        s, res = self.sym, []
        for c in range(self.channels):
            for sp in ((1, -1) if s.spin == 2 else (1,)):
                t = c if (self.coeffactor == 1 or sp == 1) else c + self.channels
                if s.same: t = 0 if (self.coeffactor == 1 or sp == 1) else self.channels
                a, b = self.tables[t]
                for k in range(self.N):
                    e = int(b + a * k)
                    if self.pairing is not None:
                        e = math.isqrt(e * e + self.pairing ** 2)
                    res.append({"e": e, "c": list(s.mode(c, sp)), "v": [0] * len(s.types)})
        self.shift(res[0], s.vac(self.N * self.channels))
        return res

    def shift(self, m, vac):
        """let the mode m carry the charges of an empty site (charges are counted from half filling)"""
        for i, x in enumerate(vac):
            m["v"][i] += x
            m["c"][i] += x

    def spec(self):
        """this problem as a TLA+ record"""
        s = self.sym
        base = [{"e": int(e), "c": list(q)} for q, es in self.seed for e in es]
        return vlib.tla({"modes": self.modes(), "types": list(s.types), "seed": base})


CFG = ("SPECIFICATION Spec\nCONSTANTS\n Problems <- MProblems\n"
       "INVARIANTS CountOK SymOK MultOK DimOK %s\nCHECK_DEADLOCK FALSE\n")


def solve(ck, probs, emit="Emit", groups=None, timeout=800):
    """Let TLC solve the problems with FreeChain: attaches p.out / p.thermo (contents of the json files)."""
    groups = groups or (len(probs) + 1) // 2
    cost = lambda p: len(p.modes())
    order = sorted(probs, key=cost, reverse=True)
    parts = [order[i::groups] for i in range(groups)]

    def one(part):
        mod = "---- MODULE MC ----\nEXTENDS FreeChain\nMProblems == <<\n%s>>\n====\n" % ",\n".join(p.spec() for p in part)
        r = vlib.tlc_must(ck, mod, CFG % emit, workers=1, timeout=timeout)
        for i, p in enumerate(part):
            if "Emit" in emit.split(): p.out = vlib.json_out(r, "out%d.json" % (i + 1))
            if "EmitThermo" in emit.split(): p.thermo = vlib.json_out(r, "thermo%d.json" % (i + 1))
    vlib.par(one, [x for x in parts if x])


def spectrum(p):
    """Counter {(excitation energy, label): number of multiplets} of the specification."""
    want = collections.Counter()
    for m in p.out["mult"]:
        want[(m["e"] - p.out["gs"], tuple(p.sym.lab(tuple(m["c"]))))] += m["n"]
    return want


def mpi_run(cmd, d, env=None, timeout=300):
    """Run an MPI program with a session directory of its own; a start-up failure of the MPI library itself is retried."""
    for attempt in range(4):
        t = tempfile.mkdtemp(prefix="m", dir="/tmp")
        p = vlib.sh(cmd, cwd=d, env=dict(env or {}, TMPDIR=t), timeout=timeout)
        shutil.rmtree(t, ignore_errors=True)
        # the first output of the program follows MPI_Init
        if p.returncode == 0 or b"NRG Ljubljana" in p.stdout: break
    return p


def run_engine(exe, d, data, param, files=None, args=(), env=None, timeout=300, pre=()):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if data is not None: open(os.path.join(d, "data"), "w").write(data)
    if param is not None: open(os.path.join(d, "param"), "w").write(param)
    for k, v in (files or {}).items():
        open(os.path.join(d, k), "w").write(v)
    p = mpi_run(list(pre) + [exe] + list(args), d, env, timeout)
    p.done = os.path.exists(os.path.join(d, "DONE"))
    p.ok = p.returncode == 0 and p.done
    return p


def parse_energies(path):
    """-> list over iterations of {label tuple: [energies]}"""
    res, cur, lab = [], None, None
    for line in open(path):
        line = line.strip()
        if line.startswith("===== Iteration"):
            cur = {}
            res.append(cur)
        elif line.startswith("Subspace:"):
            lab = tuple(int(x) for x in line.split(":")[1].split())
            cur.setdefault(lab, [])
        elif line:
            cur[lab] += [float(x) for x in line.split()]
    return res


def parse_subspaces(path):
    """-> list over iterations of {label: (kept, total)}"""
    res = []
    for line in open(path):
        m = re.match(r"Iteration (\d+)", line)
        if m:
            res.append({})
            continue
        m = re.match(r"I=(.*) kept=(\d+) total=(\d+)", line)
        if m:
            res[-1][tuple(int(x) for x in m.group(1).split())] = (int(m.group(2)), int(m.group(3)))
    return res


def parse_td(path):
    """-> (names, rows)"""
    names, rows = None, []
    for line in open(path):
        if line.startswith("#"):
            names = line[1:].split()
        elif line.strip():
            rows.append([float(x) for x in line.split()])
    return names, rows
