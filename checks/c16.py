"""C16: merging of raw binary spectra (Merge.tla) in binavg, specmoments, mats, broaden and bw."""
import itertools, json, math, os, struct
from fractions import Fraction
import numpy as np
import vlib

def table(rng, n, lo, hi):
    """ascending doubles for the ranks lo..hi (not used for the moment cases)"""
    k = hi - lo + 1
    kind = rng.randrange(5)
    if kind == 0:  # neighbours in the last place
        x, v = rng.choice([1.0, -3.7, 1e-9, 123456.0]), []
        for _ in range(k): v.append(x); x = float(np.nextafter(x, np.inf))
    elif kind == 1:  # logarithmic around zero
        v = sorted([-(2.0 ** -i) for i in range(k // 2)] + [2.0 ** -i for i in range(k - k // 2)])
    elif kind == 2:
        v = sorted({rng.uniform(-2, 2) for _ in range(3 * k)})[:k]
    elif kind == 3:
        v = sorted([5e-324 * (i + 1) for i in range(k // 3)] + [-1e300 * (i + 1) for i in range(k // 3)] + [1e-12 * (i + 1) for i in range(k - 2 * (k // 3))])
    else:
        v = [round(0.1 * i, 10) for i in range(k)]
    return {lo + i: v[i] for i in range(k)}


NOFILTER = {"low": 0, "high": 10 ** 6, "posonly": False, "negonly": False, "zero": -10 ** 6, "negzero": 10 ** 6}


def cases(ck):
    rng, res = ck.rng, []
    # all pairs of short files over three frequencies
    recs = [[f, w, 7 * w + f] for f in (-1, 0, 2) for w in (1, 2)]
    small = [[]] + [[r] for r in recs] + [[a, b] for a, b in itertools.product(recs, recs)]
    pairs = list(itertools.product(small, small))
    rng.shuffle(pairs)
    for a, b in pairs[:150 if ck.quick else len(pairs)]:
        res.append({"files": [a, b], "col": 1, "nrcol": 1, "moments": True})
    for _ in range(250 if ck.quick else 3000):
        nz = rng.choice([1, 1, 2, 3, 4, 7, 11])
        lo, hi = rng.choice([(-2, 2), (-5, 6), (0, 8), (-9, -1)])
        wmax = rng.choice([1, 9, 50])
        files = [[[rng.randint(lo, hi), rng.randint(-wmax // 3, wmax), rng.randint(-wmax, wmax)] for _ in range(rng.choice([0, 1, 3, 8, 20]))] for _ in range(nz)]
        col = rng.choice([1, 1, 2])
        nrcol = 2 if col == 2 else rng.choice([1, 1, 2])
        res.append({"files": files, "col": col, "nrcol": nrcol, "moments": rng.random() < 0.6})
    for c in res:
        fs = [NOFILTER]
        for _ in range(2):
            f = dict(NOFILTER)
            if rng.random() < 0.5: f["low"] = rng.randint(0, 4)
            if rng.random() < 0.5: f["high"] = rng.randint(1, 7)
            s = rng.random()
            if s < 0.3: f.update(posonly=True, zero=0)
            elif s < 0.6: f.update(negonly=True, negzero=1)
            fs.append(f)
        c["filters"] = fs
        c["table"] = {r: float(r) for r in range(-10, 11)} if c["moments"] else table(rng, 0, -10, 10)
        c["one"] = len(c["files"]) == 1 and rng.random() < 0.5
        c["negzero"] = rng.random() < 0.3
    return res


def write(d, c, rng):
    for i, recs in enumerate(c["files"]):
        dd = d if c["one"] else os.path.join(d, str(i + 1))
        os.makedirs(dd, exist_ok=True)
        with open(os.path.join(dd, "s.bin"), "wb") as f:
            for j, (r, w1, w2) in enumerate(recs):
                x = c["table"][r]
                if x == 0 and c["negzero"] and (i + j) % 2: x = -0.0
                f.write(struct.pack("%dd" % (1 + c["nrcol"]), x, *([float(w1), float(w2)][:c["nrcol"]])))


def floats(s): return [float(x) for x in s.split()]


def readbin(fn):
    b = open(fn, "rb").read()
    v = struct.unpack("%dd" % (len(b) // 8), b[:len(b) // 8 * 8])
    return len(b) % 16 == 0, list(zip(v[::2], v[1::2]))


def near(a, b, scale, tol=1e-12): return math.isfinite(a) and abs(a - b) <= tol * max(scale, abs(b)) + 1e-300


def run(ck):
    exe = vlib.build_tools(os.path.join(ck.tmp, "bin"), ["binavg", "specmoments", "mats", "broaden", "bw"])
    cs = cases(ck)
    groups = [list(range(len(cs)))[i::4] for i in range(4)]
    out = [None] * len(cs)

    def solve(g):
        txt = json.dumps([{k: cs[i][k] for k in ("files", "col", "moments", "filters")} for i in g])
        r = vlib.tlc_must(ck, "Merge", "SPECIFICATION Spec\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n", workers=2, files={"cases.json": txt})
        for k, i in enumerate(g): out[i] = vlib.json_out(r, "merged%d.json" % (k + 1))
    vlib.par(solve, groups)

    def one(i):
        c, o, bad = cs[i], out[i], []
        nz = len(c["files"])
        d = os.path.join(ck.tmp, "c%d" % i)
        os.makedirs(d)
        write(d, c, ck.rng)
        exp = [(c["table"][f], w / nz) for f, w in o["merged"]]
        sc = sum(abs(w) for fl in c["files"] for r in fl for w in [r[c["col"]]]) / nz + 1e-30
        opt = (["-o"] if c["one"] else []) + ({(1, 1): [], (2, 1): ["-2"], (2, 2): ["-3"]}[(c["nrcol"], c["col"])])
        log = {}

        def call(tool, args):
            p = vlib.sh([exe[tool]] + args, cwd=d, timeout=120)
            log[tool + " " + " ".join(args)] = p.stdout.decode(errors="replace")[-3000:] + p.stderr.decode(errors="replace")[-1000:]
            if p.returncode != 0: bad.append("%s %s: exit status %s" % (tool, " ".join(args), p.returncode))
            return p
        inputs = {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}
        # Matsubara values
        T, nm = [(0.5, 6), (1 / math.pi, 3), (0.01, 12)][i % 3]
        p = call("mats", opt + ["s.bin", str(nz), repr(T), str(nm)])
        if p.returncode == 0:
            rows = [floats(l) for l in open(os.path.join(d, "spec.dat"))]
            if len(rows) != nm: bad.append("mats: %d points instead of %d" % (len(rows), nm))
            for n, r in enumerate(rows):
                w = (2 * n + 1) * math.pi * T
                g = sum(y / (1j * w - x) for x, y in exp) if exp else 0j
                gs = sum(abs(y) / abs(1j * w - x) for x, y in exp) + sc / w
                if len(r) != 3 or not near(r[0], w, w) or not near(r[1], complex(g).real, gs) or not near(r[2], complex(g).imag, gs):
                    bad.append("mats: n=%d: %s instead of %s" % (n, r, (w, g)))
                    break
        # moments
        if c["nrcol"] == 1 and c["moments"]:
            for f, m, s in zip(c["filters"], o["moments"], o["filtered"]):
                a = ([] if not f["low"] else ["-l", str(f["low"])]) + ([] if f["high"] > 1000 else ["-h", str(f["high"])]) + (["-p"] if f["posonly"] else []) + (["-n"] if f["negonly"] else [])
                p = call("specmoments", opt + a + ["s.bin", str(nz)])
                r = floats(p.stdout.decode()) if p.returncode == 0 else []
                if p.returncode == 0 and (len(r) != 5 or any(not near(x, y / nz, sc * 10 ** k) for k, (x, y) in enumerate(zip(r, m)))):
                    bad.append("specmoments %s: %s instead of %s" % (a, r, [y / nz for y in m]))
                if f is c["filters"][0] or True:
                    if m[0] != 0:
                        p = call("specmoments", opt + a + ["-c", "s.bin", str(nz)])
                        r = floats(p.stdout.decode()) if p.returncode == 0 else []
                        mean = Fraction(m[1], m[0])
                        cm = [sum(w * (q[0] - mean) ** k for q, w in zip(o["merged"], s)) / Fraction(m[0]) for k in (2, 3, 4)]
                        e = [m[0] / nz, m[1] / nz] + [float(x) for x in cm]
                        if p.returncode == 0 and (len(r) != 5 or any(not near(x, y, sc * (10 + abs(float(mean))) ** (k + 1) * max(1, sc / abs(m[0] / nz)), 1e-11) for k, (x, y) in enumerate(zip(r, e)))):
                            bad.append("specmoments %s -c: %s instead of %s" % (a, r, e))
        # merged spectrum (overwrites nothing but its own output)
        p = call("binavg", opt + ["s.bin", str(nz)])
        fn = os.path.join(d, "spec.bin" if c["one"] else "s.bin")
        if p.returncode == 0:
            whole, got = readbin(fn)
            if not whole: bad.append("binavg: output is not a whole number of records")
            if [x for x, _ in got] != [x for x, _ in exp]: bad.append("binavg: frequencies %s instead of %s" % ([x for x, _ in got][:8], [x for x, _ in exp][:8]))
            elif any(not near(a[1], b[1], 0, 1e-14) and abs(a[1] - b[1]) > 1e-15 * sc for a, b in zip(got, exp)): bad.append("binavg: weights %s instead of %s" % (got[:8], exp[:8]))
        # curves: broadened with a Gaussian (explicit formula), cumulative weight
        if i % 4 == 0 and exp and all(abs(x) < 1e6 for x, _ in exp):
            alpha = 0.4
            a = opt + ["-g", "-c", "-m", "1e-3", "-M", "9", "-r", "1.7"]
            p = call("broaden", a + ["s.bin", str(nz), str(alpha), "0.1"] if not c["one"] else a + ["s.bin", str(nz), str(alpha), "0.1"])
            if p.returncode == 0:
                rows = [floats(l) for l in open(os.path.join(d, "spec.dat"))]
                cum = [floats(l) for l in open(os.path.join(d, "cumulative.dat"))]
                gs = [w / math.sqrt(math.pi) / alpha for _, w in exp]
                for x, y in rows:
                    e = sum(w * math.exp(-((x - f) / alpha) ** 2) / (alpha * math.sqrt(math.pi)) for f, w in exp)
                    if not near(y, e, sc / alpha, 1e-11): bad.append("broaden -g: A(%g)=%g instead of %g" % (x, y, e)); break
                for x, y in cum:
                    e = sum(w for f, w in exp if f < x)
                    if not near(y, e, sc): bad.append("broaden -c: cumulative(%g)=%g instead of %g" % (x, y, e)); break
                if [r[0] for r in rows] != [r[0] for r in cum] or len(rows) < 10 or any(u[0] >= v[0] for u, v in zip(rows, rows[1:])): bad.append("broaden: mesh")
            # the kernel does not depend on how the spectrum is distributed over files
            if not c["one"] and c["nrcol"] == 1 and all(x != 0 for x, _ in exp):
                res = []
                for sub, files, n in (("A", None, nz), ("B", exp, 1)):
                    if files is not None:
                        os.makedirs(os.path.join(d, "m/1"))
                        open(os.path.join(d, "m/1/s.bin"), "wb").write(b"".join(struct.pack("2d", x, y) for x, y in files))
                    dd = d if files is None else os.path.join(d, "m")
                    r = []
                    for tool, args, o1 in (("broaden", ["-m", "1e-2", "-M", "4", "-r", "1.5", "s.bin", str(n), "0.5", "0.02", "1.0"], "spec.dat"),
                                           ("broaden", ["-n", "-P", "-m", "1e-2", "-M", "4", "-r", "1.5", "s.bin", str(n), "0.5", "0.02", "1.0"], "spec.dat"),
                                           ("broaden", ["-N", "-l", "0.3", "-h", "3.1", "-m", "1e-2", "-M", "4", "-r", "1.5", "s.bin", str(n), "0.5", "0.02", "1.0"], "spec.dat"),
                                           ("bw", ["-m", "1e-2", "-M", "4", "-r", "1.3", "-n", "1", "-t", "1e-2", "s.bin", "0.5", str(n)], "a1.dat")):
                        p = vlib.sh([exe[tool]] + args, cwd=dd, timeout=120)
                        log[sub + tool + " ".join(args)] = p.stdout.decode(errors="replace")[-2000:] + p.stderr.decode(errors="replace")[-500:]
                        if p.returncode != 0: bad.append("%s %s: exit status %s" % (tool, " ".join(args), p.returncode)); r.append([]); continue
                        r.append([floats(l) for l in open(os.path.join(dd, o1))])
                    res.append(r)
                for t, u, v in zip(("broaden", "broaden -n -P", "broaden -N -l -h", "bw"), *res):
                    rel = 1e-5 if t == "bw" else 1e-8  # bw prints six digits
                    if len(u) != len(v) or any(a[0] != b[0] or abs(a[1] - b[1]) > rel * max(abs(b[1]), sc * 1e-3) for a, b in zip(u, v)):
                        bad.append("%s: curve of the %d files differs from the curve of their average" % (t, nz))
                # explicit formula of the kernel where it is unambiguous: adaptive tool in its first pass
                e0 = lambda E, m=lambda w: w: sum(m(w) * math.exp(-(math.log(E / f) / 0.5 - 0.125) ** 2) / (0.5 * abs(E) * math.sqrt(math.pi)) for f, w in exp if (f < 0) == (E < 0))
                for x, y in res[0][3]:
                    if abs(y - e0(x)) > 1e-4 * max(e0(x, abs), sc * 1e-3): bad.append("bw: A(%g)=%g instead of %g" % (x, y, e0(x))); break
                # log-Gaussian/Gaussian cross-over kernel of the broadening tool (width omega0 = 0.02)
                al, w0 = 0.5, 0.02

                def kern(e, f, norm):
                    l = 0.0 if (e < 0) != (f < 0) else math.exp(-(math.log(e / f) / al - al / 4) ** 2) / (al * abs(e) * math.sqrt(math.pi))
                    g = math.exp(-((e - f) / w0) ** 2) / (w0 * math.sqrt(math.pi))
                    x = abs(f if norm else e)
                    h = 1.0 if x > w0 else math.exp(-(math.log(x / w0) / al) ** 2)
                    return l * h + g * (1 - h)
                for q, norm, sel in ((0, False, lambda f: True), (1, True, lambda f: f >= 0), (2, False, lambda f: f < 0 and 0.3 <= abs(f) <= 3.1)):
                    for x, y in res[0][q]:
                        e = sum(w * kern(x, f, norm) for f, w in exp if sel(f))
                        if abs(y - e) > 1e-9 * max(abs(e), sc * 1e-3): bad.append("broaden, variant %d: A(%g)=%g instead of %g" % (q, x, y, e)); break
        return bad, log, inputs
    res = vlib.par(one, range(len(cs)))
    for i, (bad, log, inputs) in enumerate(res):
        if bad:
            ck.violation("case %d (%d files): %s" % (i, len(cs[i]["files"]), "; ".join(bad)), "merge:" + bad[0].split(":")[0],
                         dict({"in/" + k: v for k, v in inputs.items()}, log=json.dumps(log, indent=1), expected=json.dumps(out[i])))
        else: ck.traces()
        if i in (0, 200): ck.sample("%d files, %d records -> %s" % (len(cs[i]["files"]), sum(map(len, cs[i]["files"])), out[i]["merged"][:6]))
    ck.extra["cases"] = len(cs)
