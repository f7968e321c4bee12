"""C17: averages of text tables (TextAvg.tla): intavg and tdavg."""
import json, math, os
import vlib


def cases(ck):
    rng, res = ck.rng, []
    for n in range(240 if ck.quick else 3000):
        tool = "intavg" if n % 2 else "tdavg"
        nz = rng.choice([1, 2, 2, 3, 4])
        cols = 1 if tool == "intavg" else rng.choice([1, 2, 3])
        span = rng.choice([5, 9, 14])
        off = rng.choice([0, 0, 0, 10000, 100000, 400000])       # fine grids: neighbouring abscissae differ by 1/off
        xmin = off + rng.choice([-6, 0, 1, 3]) if tool == "intavg" else off + rng.choice([0, 1, 1, 2])

        def table():
            m = rng.randint(2, min(span, 7))
            xs = sorted(rng.sample(range(xmin, xmin + span), m))
            return [[x] + [rng.randint(-9, 9) for _ in range(cols)] for x in xs]
        data = [table() for _ in range(nz)]
        if rng.random() < 0.25:  # all on the same grid
            data = [[[r[0]] + [rng.randint(-9, 9) for _ in range(cols)] for r in data[0]] for _ in range(nz)]
        ref = [table() for _ in range(nz)] if tool == "tdavg" and rng.random() < 0.4 else []
        s = rng.choice([1.0, 1.0, 0.1, 1e-7, 1e6, 3.0])
        res.append({"tool": tool, "data": data, "ref": ref, "cols": cols, "s": s, "shuffle": rng.choice([None, None, "reverse", "random"]),
                    "named": rng.choice(["td", "x.dat"]), "jitter": off == 0 and rng.random() < 0.3, "comments": rng.randrange(3), "c": rng.random() < 0.3})
    return res


def text(c, t, rng, head):
    rows = list(t)
    if c["shuffle"] == "reverse": rows = rows[::-1]
    elif c["shuffle"] == "random": rng.shuffle(rows)
    res = []
    for r in rows:
        x = r[0] * c["s"]
        if c["jitter"] and rng.random() < 0.5: x *= 1 + 3e-9 * rng.random()   # the same abscissa up to round-off
        if head == 2 and rng.random() < 0.3 and c["tool"] == "intavg": res.append("# remark 3 4")
        sep = rng.choice([" ", "\t", "   "])
        res.append(rng.choice(["", "", " "]) + sep.join([repr(x)] + [repr(v) if rng.random() < 0.5 else "%.1f" % v for v in r[1:]]) + rng.choice(["", "", "  "]))
    return res


def run(ck):
    exe = vlib.build_tools(os.path.join(ck.tmp, "bin"), ["intavg", "tdavg"])
    cs = cases(ck)
    out = [None] * len(cs)

    def solve(g):
        r = vlib.tlc_must(ck, "TextAvg", "SPECIFICATION Spec\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n", workers=2,
                          files={"cases.json": json.dumps([{k: cs[i][k] for k in ("data", "ref", "cols")} for i in g])})
        for k, i in enumerate(g): out[i] = vlib.json_out(r, "avg%d.json" % (k + 1))
    vlib.par(solve, [list(range(len(cs)))[i::4] for i in range(4)])
    for i, c in enumerate(cs):
        d = os.path.join(ck.tmp, "c%d" % i)
        os.makedirs(d)
        rng = ck.rng
        if c["tool"] == "intavg":
            for j, t in enumerate(c["data"]):
                os.makedirs(os.path.join(d, str(j + 1)))
                lines = (["# header"] * c["comments"]) + text(c, t, rng, c["comments"])
                open(os.path.join(d, str(j + 1), "y.dat"), "w").write("\n".join(lines) + rng.choice(["\n", ""]))
            cmd, fn = [exe["intavg"], "y.dat", str(len(c["data"]))], "y.dat"
        else:
            def blocks(ts): return "".join("".join("# block %d\n" % j for _ in range(1 + c["comments"] % 2)) + "\n".join(text(c, t, rng, 0)) + "\n" for j, t in enumerate(ts))
            inp = "td.dat" if c["named"] == "td" else "x.dat"
            open(os.path.join(d, inp), "w").write(blocks(c["data"]))
            args = ["-c"] if c["c"] else []
            if c["named"] != "td" or c["ref"] and c["shuffle"]: args.append(inp)
            if c["ref"]:
                if c["named"] == "td" and not c["shuffle"]: open(os.path.join(d, "td-ref.dat"), "w").write(blocks(c["ref"]))
                else:
                    open(os.path.join(d, "other.dat"), "w").write(blocks(c["ref"]))
                    args.append("other.dat")
            cmd, fn = [exe["tdavg"]] + args, "td-avg.dat" if inp == "td.dat" else "x.dat.avg.dat"
        inputs = {"in/" + os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}
        p = vlib.sh(cmd, cwd=d, timeout=60)
        bad, txt = None, ""
        if p.returncode != 0: bad = "exit status %s: %s" % (p.returncode, p.stderr[-300:])
        else:
            txt = open(os.path.join(d, fn)).read()
            rows = [[float(x) for x in l.split()] for l in txt.splitlines() if l.strip() and not l.startswith("#")]
            exp = [(x * c["s"], [n / m for n, m in vs]) for x, vs in out[i]]
            if len(rows) != len(exp): bad = "%d abscissae instead of %d" % (len(rows), len(exp))
            else:
                for r, (x, v) in zip(rows, exp):
                    if len(r) != c["cols"] + 1: bad = "%d columns" % len(r); break
                    if abs(r[0] - x) > 2e-8 * abs(x) + 1e-300: bad = "abscissa %r instead of %r" % (r[0], x); break
                    tol = 2e-6 if c["jitter"] else 1e-11
                    if any(not abs(a - b) <= tol * 20 for a, b in zip(r[1:], v)): bad = "x=%g: %s instead of %s" % (x, r[1:], v); break
        if bad: ck.violation("%s case %d: %s" % (c["tool"], i, bad), "avg:%s" % c["tool"], dict(inputs, cmd=" ".join(cmd), output=txt, expected=json.dumps(out[i])))
        else: ck.traces()
        if i < 2: ck.sample("%s %s ref %s -> %s" % (c["tool"], c["data"], c["ref"], out[i][:3]))
    ck.extra["cases"] = len(cs)
