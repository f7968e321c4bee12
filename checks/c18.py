"""C18: template expressions (Expr.tla) in matrix and instantiate; template instantiation (Template.tla)."""
import json, math, os, random, re, shutil
from fractions import Fraction as F
import threading
import vlib

VARS = {"V": F(3, 4), "U_1": F(-5, 2), "expo": F(7), "Sqrt2": F(1, 8), "coefx": F(-3), "parsec": F(11, 4), "b2": F(1000), "g": F(1, 1024), "aa": F(13, 16),
        "hybridisation_up": F(3), "hybridisation_down": F(9, 2), "hybridisation_upp": F(-7, 4), "a_rather_long_name_that_goes_on_and_on_1": F(5, 8), "a_rather_long_name_that_goes_on_and_on_2": F(21)}
NUMS = ["0", "1", "2", "3", "7", "10", "12", "2.", ".5", "0.25", "1.75", "2.5e1", "1e2", "5e-3", "0.125E-1", "3.e2", "1.e-3", "0012", "100000", "4000000000", ".75e+1"]
FUN = {"Sqrt": math.sqrt, "sqrt": math.sqrt, "exp": math.exp, "log": math.log}
INST_FUN = dict(FUN, Conjugate=lambda x: x)


class Undefined(Exception):
    pass


def build_instantiate(ck):
    R = vlib.REPO
    return vlib.build_engine(os.path.join(ck.tmp, "inst"), ["QS", "QSZ", "U1"], main=False,
                             extra_srcs=[R + "/tools/instantiate/instantiate.cc", R + "/tools/nrgchain/nrgchain.cc"],
                             extra_flags=["-DNRGCHAIN_NO_MAIN", "-I" + R + "/tools/nrgchain", "-I" + R + "/tools/common"],
                             libs=["-lgmp", "-lgmpxx", "-lgsl"])


class Renderer:
    """token string -> text and the values of its operands"""
    def __init__(self, rng, tool, coefs, theta):
        self.rng, self.tool, self.coefs, self.theta = rng, tool, coefs, theta

    def operand(self, t):
        rng = self.rng
        if t == "n":
            s = rng.choice(NUMS) if rng.random() < 0.8 else repr(round(rng.uniform(0, 9), rng.randrange(1, 6)))
            return s, F(s)
        if t == "x":
            if self.tool == "instantiate" and rng.random() < 0.1: return rng.choice(["Pi", "pi"]), F(math.pi)
            n = rng.choice(list(VARS))
            return n, VARS[n]
        o, c = ("[", "]") if self.tool == "matrix" or rng.random() < 0.7 else ("(", ")")
        sp = lambda: rng.choice(["", "", " "])
        kind = rng.choice(["xi", "zeta", "g"])
        ch = rng.randrange(len(self.theta))
        if kind == "g": return "gammaPolCh%s%s%d%s%s" % (o, sp(), ch + 1, sp(), c), F(math.sqrt(self.theta[ch] / math.pi))
        i = rng.randrange(len(self.coefs[kind][ch]))
        return "coef%s%s%s%d%s,%s%d%s%s" % (kind, o, sp(), ch + 1, sp(), sp(), i, sp(), c), F(self.coefs[kind][ch][i])

    def text(self, toks):
        """returns text, operand values in order, functions in order of their names"""
        out, vals, funs, prev = [], [], [], ""
        for t in toks:
            if t in ("n", "x", "c"):
                s, v = self.operand(t)
                vals.append(v)
            elif t == "f":
                s = self.rng.choice(list(INST_FUN if self.tool == "instantiate" else FUN))
                funs.append(s)
            else: s = t
            wordy = prev and (prev[-1].isalnum() or prev[-1] in "_.") and (s[0].isalnum() or s[0] in "_.")
            out.append((" " if wordy or self.rng.random() < 0.25 else "") + s)
            prev = s
        return "".join(out), vals, funs


def evaluate(post, toks, vals, funs):
    """value of the postfix string; functions are applied in the order in which their calls are closed"""
    order, open_, fi = [], [], iter(funs)   # closing order of the function calls
    pend = None
    for t in toks:
        if t == "f": pend = next(fi)
        elif t in "([":
            open_.append(pend)
            pend = None
        elif t in ")]":
            g = open_.pop()
            if g: order.append(g)
    st, big, it, go = [], F(0), iter(vals), iter(order)
    for t in post:
        if t in ("n", "x", "c"): st.append(next(it))
        elif t == "neg": st.append(-st.pop())
        elif t == "f":
            x, g = st.pop(), INST_FUN[next(go)]
            try: r = g(float(x))
            except (ValueError, OverflowError): raise Undefined("function")
            if not math.isfinite(r) or abs(r) > 1e100: raise Undefined("function")
            st.append(F(r))
        else:
            b, a = st.pop(), st.pop()
            if t == "/" and b == 0: raise ZeroDivisionError
            if t == "/" and abs(b) < F(1, 10**9): raise Undefined("nearly singular")
            st.append(a + b if t == "+" else a - b if t == "-" else a * b if t == "*" else a / b)
        big = max(big, abs(st[-1]))
    if big > 10**25: raise Undefined("too large")
    assert len(st) == 1
    return st[0], big


def expressions(ck):
    """token strings with verdict from TLC"""
    res = []
    cfg = "SPECIFICATION Spec\nCONSTANTS Tokens = {%s}\nMaxLen = %d\nMaxDepth = %d\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n"
    alltok = ['"n"', '"x"', '"+"', '"-"', '"*"', '"/"', '"("', '")"', '"f"', '"["', '"]"']
    r = vlib.tlc_must(ck, "Expr", cfg % (", ".join(alltok), 5 if ck.quick else 6, 4), workers=4)
    small = ['"n"', '"-"', '"*"', '"+"', '"/"'] if ck.quick else ['"n"', '"-"', '"*"', '"+"', '"/"', '"("', '")"']
    r2 = vlib.tlc_must(ck, "Expr", cfg % (", ".join(small), 7, 7), workers=4)
    # long random ones: behaviours of the same specification, restricted to accepted steps
    mod = """---- MODULE ExprSim ----
EXTENDS Expr
GoodNext == Next /\\ mode' # "reject"
SimSpec == Init /\\ [][GoodNext]_vars
EmitLong == Len(toks) < 9 \\/ ~Complete \\/ PrintT(<<"EXPR", Result>>)
====
"""
    toks = alltok + ['"c"']
    r3 = vlib.tlc(ck, mod, (cfg % (", ".join(toks), 26, 8)).replace("SPECIFICATION Spec", "SPECIFICATION SimSpec").replace("Emit", "EmitLong"), workers=1,
                  args=["-simulate", "num=%d" % (600 if ck.quick else 30000), "-depth", "26", "-seed", str(ck.seed)])
    if r3.rc != 0: raise vlib.CheckError(r3.out[-3000:])
    for rr, full in ((r, 1), (r2, 1), (r3, 0)):
        for part in re.split(r'<<\s*"EXPR"\s*,', rr.out)[1:]:
            lists = re.findall(r'(\w+) \|->\s*(<<[^>]*>>|TRUE|FALSE)', part)
            d = {k: re.findall(r'"(.*?)"', v) if v[0] == "<" else v == "TRUE" for k, v in lists[:4]}
            res.append((d["toks"], d["ok"], d["up"], d["post"], full))
    return res


def tok_ok(txt, val, big):
    try: x = float(txt)
    except ValueError: return False
    return abs(F(x) - val) <= F(1, 10**13) * (abs(val) + big) if math.isfinite(x) else False


def matrix_files(ck, d, channels, numbered):
    rng = ck.rng
    theta = [round(rng.uniform(0.1, 3), 6) for _ in range(channels)]
    coefs = {k: [[round(rng.uniform(-1, 1), 9) for _ in range(rng.randrange(2, 6))] for _ in range(channels)] for k in ("xi", "zeta")}
    for ch in range(channels):
        suf = str(ch + 1) if numbered else ""
        open(os.path.join(d, "theta%s.dat" % suf), "w").write("%r\n" % theta[ch])
        for k in ("xi", "zeta"): open(os.path.join(d, "%s%s.dat" % (k, suf)), "w").write("".join("%r\n" % v for v in coefs[k][ch]))
    names = list(VARS)
    rng.shuffle(names)
    lines = ["[param]", "# comment 1 +", "name=text here"]
    for i, n in enumerate(names):
        v = VARS[n]
        lines.append(rng.choice(["%s=%r", "%s = %r", "%s= %r"]) % (n, float(v)))
        if i == 4: lines += ["", "[extra]", "Gamma=V", "#"]
    open(os.path.join(d, "param"), "w").write("\n".join(lines) + "\n")
    return coefs, theta


def matrix_accept(ck, exe, exprs):
    rng = ck.rng
    rounds = 2 if ck.quick else 6
    for rnd in range(rounds):
        d = os.path.join(ck.tmp, "m%d" % rnd)
        os.makedirs(d)
        ch = rng.choice([1, 2, 3])
        numbered = ch > 1 or rng.random() < 0.5
        coefs, theta = matrix_files(ck, d, ch, numbered)
        rd = Renderer(rng, "matrix", coefs, theta)
        good = []
        for toks, ok, up, post, full in exprs[rnd::rounds]:
            if not ok or up: continue
            txt, vals, funs = rd.text(toks)
            try: good.append((txt,) + evaluate(post, toks, vals, funs))
            except (ZeroDivisionError, Undefined): continue
        rng.shuffle(good)
        # single lines and list and matrix forms, spread over several files and an included one
        files, expect, k = {"a": [], "b": [], "sub": []}, {"a": [], "b": [], "sub": []}, 0
        while k < len(good):
            f = rng.choice(["a", "a", "b", "b", "b", "sub"])
            form = rng.random()
            if form < 0.6: n, m = 1, 0
            elif form < 0.8: n, m = rng.randrange(1, 6), 0
            else: n, m = rng.randrange(1, 5), rng.randrange(1, 4)
            part = good[k:k + max(n, n * m)]
            k += len(part)
            nl = lambda: rng.choice(["", " ", "\n", "\n  "]) if rng.random() < 0.4 else ""
            if form < 0.6:
                files[f].append(part[0][0])
                expect[f].append([part[0]])
            elif not m or len(part) < n * m:
                files[f].append("{" + ("," + nl()).join(p[0] + nl() for p in part) + "}")
                expect[f].append(part)
            else:
                rows = [part[i * m:(i + 1) * m] for i in range(n)]
                files[f].append("{" + nl() + ("," + nl()).join("{" + (nl() + ",").join(p[0] for p in r) + "}" for r in rows) + nl() + "}")
                expect[f] += rows
            if rng.random() < 0.05: files[f].append(rng.choice(["", "# 1+2", "  ", "zz = 1+V", "[section]", "s=text"]))
        for f in files: open(os.path.join(d, f), "w").write("\n".join(files[f]) + "\n")
        open(os.path.join(d, "b"), "a").write("parse sub\n")
        open(os.path.join(d, "last"), "w").write("1+V")     # no line break at the end
        want = expect["a"] + expect["b"] + expect["sub"] + [[("1+V", F(7, 4), F(2))]]
        p = vlib.sh([exe] + (["-c", str(ch)] if numbered else []) + ["param", "a", "b", "last"], cwd=d, timeout=120)
        got = [l for l in p.stdout.decode(errors="replace").splitlines() if not l.startswith("parsing ")]
        rep = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
        bad = None
        if p.returncode != 0: bad = "valid expressions rejected: %s" % p.stderr[-300:].decode(errors="replace")
        for i, row in enumerate(want):
            if i >= len(got): bad = bad or "output ends after %d of %d lines" % (len(got), len(want)); break
            cols = got[i].split()
            if len(cols) != len(row): bad = "%s -> %s: %d values instead of %d" % ([r[0] for r in row], got[i], len(cols), len(row)); break
            w = [r for r, c in zip(row, cols) if not tok_ok(c, r[1], r[2])]
            if w: bad = "matrix: %s -> %s instead of %r" % (w[0][0], got[i], float(w[0][1])); break
        else:
            if len(got) != len(want): bad = bad or "%d lines of output instead of %d" % (len(got), len(want))
        if bad: ck.violation(bad, "matrix:value", dict(rep, stdout=p.stdout.decode(errors="replace"), stderr=p.stderr.decode(errors="replace")))
        else: ck.traces(len(good))
        if rnd == 0: [ck.sample("matrix: %s = %.12g" % (g[0], float(g[1]))) for g in sorted(good, key=lambda g: -len(g[0]))[:2]]
        ck.extra["matrix_expressions"] = ck.extra.get("matrix_expressions", 0) + len(good)
    return d, coefs, theta


MALFORMED = ["{1,2", "{1,,2}", "{1,2,}", "{{1,2},{3}", "1,2", "}", "{1 2}", "{,1}", "{{1},2}", "{1;2}", "1+2)", "Sqrt[4", "Sqrt 4", "exp", "nosuch", "nosuch[1]",
             "2*nosuch+1", "V[1]", "V(2)", "coefxi[1]", "coefxi[0,0]", "coefxi[1,99]", "coefxi[1,-1]", "coefzeta[1,99]", "coefzeta[7,0]", "coefxi[7,0]",
             "gammaPolCh[0]", "gammaPolCh[7]", "1/0", "1/(V-V)", "{1,2/0}", "{{1,nosuch},{1,2}}", "2 [V]", "1..2", "2e", "{1,2}}", "&", "1+@", "2**3", "a b"]
MALFORMED_INST = [m for m in MALFORMED if m not in ("exp",)] + ["{{1,2},{3}}", "{1,2}+1", "{{1,2},{3,4}} 5", "parse x", "!ls", "Sqrt[1,2]", "coefxi[1.5,0]", ""]


def matrix_reject(ck, exe, d, exprs, coefs, theta):
    rng = ck.rng
    rd = Renderer(rng, "matrix", coefs, theta)
    bad = [e for e in exprs if not e[1] or e[2]]
    items = [(t, rd.text(t)[0]) for t, ok, up, post, full in rng.sample(bad, min(len(bad), 900 if ck.quick else 8000))]
    items += [(None, m) for m in MALFORMED]
    div = 0
    for toks, ok, up, post, full in rng.sample(exprs, len(exprs)):     # well-formed expressions that divide by zero
        if not ok or up or "/" not in toks or "f" in toks: continue
        txt, vals, funs = rd.text(toks)
        try: evaluate(post, toks, vals, funs)
        except ZeroDivisionError:
            items.append((toks, txt))
            div += 1
        except Undefined: pass
        if div > 60: break
    numbered = os.path.exists(os.path.join(d, "theta1.dat"))

    def one(k):
        toks, txt = items[k]
        f = os.path.join(d, "r%d" % k)
        pos = k % 3   # alone, before or after correct lines
        open(f, "w").write(("1+1\n" if pos else "") + txt + "\n" + ("2+2\n" if pos == 2 else ""))
        p = vlib.sh([exe] + (["-c", str(len(theta))] if numbered else []) + ["param", "r%d" % k], cwd=d, timeout=60)
        os.unlink(f)
        return p
    for (toks, txt), p in zip(items, vlib.par(one, list(range(len(items))))):
        if p.returncode <= 0 or p.returncode > 125:
            ck.violation("matrix: invalid expression %r: exit status %s, output %r" % (txt, p.returncode, p.stdout[-80:]), "matrix:reject:%s" % txt,
                         {"expression": txt, "param": open(os.path.join(d, "param")).read()})
        else: ck.traces()
    ck.extra["matrix_rejected"] = len(items)


# ------------------------------------------------------------------ instantiate
CHAIN = "[param]\nsymtype=%s\nxmax=12\nadapt=false\nprec=100\nfixeps=1e-10\nLambda=%s\nNmax=%d\nkeep=100\ndiscretization=Z\nband=%s\nbandrescale=%s\ndos=Delta.dat\nz=%s\n"


def inst_dir(rng, d, symtype="QS", nmax=4):
    os.makedirs(os.path.join(d, "template"))
    lam, res, z = rng.choice([2, 2.5, 4]), rng.choice([1, 1, 0.5]), rng.choice([1, 0.5])
    extra = "[extra]\n" + "".join("%s=%r\n" % (k, float(v)) for k, v in VARS.items()) + "label=some text\n# V=9\n\n"
    band = rng.choice(["flat", "asymode"])
    p = CHAIN % (symtype, lam, nmax, band, res, z)
    for f, sgn in (("FSOL.dat", 1), ("FSOLNEG.dat", 1)):     # a solution table of the discretisation equation: any smooth function will do here
        open(os.path.join(d, f), "w").write("".join("%.4f %.8f\n" % (1 + x / 20, 0.6 + 0.01 * rng.random()) for x in range(0, 400)))
    open(os.path.join(d, "param"), "w").write(extra + p if rng.random() < 0.5 else p + extra)
    g = round(rng.uniform(0.05, 0.5), 4)
    open(os.path.join(d, "Delta.dat"), "w").write("".join("%.3f %.6f\n" % (x / 10, g * (1 + 0.3 * (x > 0))) for x in range(-10, 11)))


def read_coefs(d):
    rd = lambda f: [float(x) for x in open(os.path.join(d, f)).read().split()]
    return {"xi": [rd("xi1.dat")], "zeta": [rd("zeta1.dat")]}, rd("theta1.dat")


def inst_values(ck, exe, exprs):
    rng = ck.rng
    d = os.path.join(ck.tmp, "iv")
    os.makedirs(d)
    inst_dir(rng, d)
    p = vlib.sh([exe, "--wilson-only"], cwd=d)
    if p.returncode: raise vlib.CheckError("instantiate --wilson-only failed: %s" % p.stderr.decode())
    coefs, theta = read_coefs(d)
    rd = Renderer(rng, "instantiate", coefs, theta)
    good, div = [], []
    for toks, ok, up, post, full in exprs:
        if not ok: continue
        txt, vals, funs = rd.text(toks)
        try:
            v, big = evaluate(post, toks, vals, funs)
            if abs(v) < 10**9: good.append((txt, v, big))
        except ZeroDivisionError:
            if "f" not in toks: div.append(txt)
        except Undefined: pass
    rng.shuffle(good)
    subs, k, items = [], 0, ["# Input file", "#!9", "1 0 %d", "# SCALE 1"]
    while k < len(good):
        n = min(rng.choice([1, 1, 2, 3, 8, 20]), math.isqrt(len(good) - k))
        part = good[k:k + n * n]
        k += n * n
        qn = (len(subs) - 200, 1 + len(subs) % 3)
        name = "m%d" % len(subs)
        nl = lambda: rng.choice([" ", "\n", "\n# 1,2}\n", "\t"]) if rng.random() < 0.2 else ""
        txt = part[0][0] if n == 1 and rng.random() < 0.7 else "{" + (nl() + "," + nl()).join("{" + ("," + nl()).join(x[0] for x in part[i * n:i * n + n]) + "}" for i in range(n)) + "}"
        open(os.path.join(d, "template", name), "w").write(txt + rng.choice(["", "\n", "\n\n# end\n"]))
        subs.append((qn, n, part))
        items += ["%d %d" % qn, str(n), "DIAG %s" % name]
    open(os.path.join(d, "template", "data.in"), "w").write("\n".join(items).replace("%d", str(len(subs))) + "\n")
    p = vlib.sh([exe, "--diag-seed-only"], cwd=d, timeout=300)
    if p.returncode != 0:
        ck.violation("instantiate rejects valid expressions: %s" % p.stderr[-300:].decode(errors="replace"), "instantiate:value",
                     {f: open(os.path.join(d, "template", f)).read() for f in os.listdir(os.path.join(d, "template"))})
    else:
        for qn, n, part in subs:
            got = open(os.path.join(d, "ham.%d.%d" % qn)).read().split()
            w = [(x, g) for x, g in zip(part, got) if not tok_ok(g, x[1], x[2])]
            if len(got) != n * n: ck.violation("matrix of %d values instead of %d" % (len(got), n * n), "instantiate:value", {"expressions": "\n".join(x[0] for x in part)}); break
            if w: ck.violation("instantiate: %s -> %s instead of %r" % (w[0][0][0], w[0][1], float(w[0][0][1])), "instantiate:value", {"expression": w[0][0][0]}); break
            ck.traces(len(part))
    ck.extra["instantiate_expressions"] = len(good)
    # rejected ones
    bad = [e for e in exprs if not e[1]]
    items = [rd.text(t)[0] for t, *_ in rng.sample(bad, min(len(bad), 250 if ck.quick else 3000))] + MALFORMED_INST + div[:25]
    base = os.path.join(ck.tmp, "ir")
    os.makedirs(base)

    def one(k):
        e = os.path.join(base, str(k))
        os.makedirs(os.path.join(e, "template"))
        shutil.copy(os.path.join(d, "param"), e)
        for f in ("Delta.dat", "FSOL.dat", "FSOLNEG.dat"): shutil.copy(os.path.join(d, f), e)
        txt = items[k]
        if k % 3 == 1 and txt and "{" not in txt: txt = "{{%s}}" % txt
        open(os.path.join(e, "template", "mm"), "w").write(txt + "\n")
        open(os.path.join(e, "template", "data.in"), "w").write("#!9\n1 0 1\n# SCALE 1\n0 1\n1\nDIAG mm\n")
        p = vlib.sh([exe, "--diag-seed-only"], cwd=e, timeout=60)
        ham = os.path.exists(os.path.join(e, "ham"))
        shutil.rmtree(e)
        return p, ham
    for txt, (p, ham) in zip(items, vlib.par(one, list(range(len(items))))):
        if p.returncode != 1 or ham:
            ck.violation("instantiate: invalid expression %r: exit status %s%s" % (txt, p.returncode, ", a number was used" if ham else ""), "instantiate:reject:%s" % txt, {"expression": txt})
        else: ck.traces()
    ck.extra["instantiate_rejected"] = len(items)


def template_cases(ck):
    """random templates (consistent ones and ones with one inconsistency) as item lists with their text"""
    rng, res = ck.rng, []
    for n in range(120 if ck.quick else 900):
        sym = rng.choice(["QS", "QSZ", "U1"])
        wilson = 2 if sym == "U1" else 1
        qns = [(q, s) for q in range(-3, 4) for s in (range(1, 5) if sym == "QS" else range(-3, 4) if sym == "QSZ" else [0])]
        qs = lambda q: "%d" % q[0] if sym == "U1" else "%d %d" % q
        ids = rng.sample(qns, rng.randrange(1, 6))
        dim = {q: rng.choice([1, 1, 2, 3, 4]) for q in ids}
        files, items = {}, []
        num = lambda: rng.choice(["0", "1", "V", "-V/2", "U_1*g", "coefxi[1,0]", "0.5", "Sqrt[3]/2", "%.4f" % rng.uniform(-2, 2), "-1.5e-3*b2"])

        def com():
            while rng.random() < 0.25: items.append({"k": "comment", "text": rng.choice(["# remark", "#!9 x", "   # indented # twice", "#", "# 1 2 3", "#SCALE 7", "# Scale 5"])})
            if rng.random() < 0.1: items.append({"k": "blank", "text": rng.choice(["", "   "])})
        for t in ("# Input file", "# symtype  %s" % sym, "#!9"): items.append({"k": "comment", "text": t})
        items.append({"k": "header", "text": "1 0 %d" % len(ids)})
        scale = rng.choice(["1", "2", "0.5", "1.25e-1"])
        items.append({"k": "scale", "text": rng.choice(["# SCALE  %s", "  #   SCALE %s", "# SCALE %s x"]) % scale})
        com_ = lambda: None   # comments between the subspaces and inside blocks are not part of the format
        for q in ids:
            m = [[num() for _ in range(dim[q])] for _ in range(dim[q])]
            for i in range(dim[q]):
                for j in range(i): m[i][j] = m[j][i]
            f = "h%d_%d" % q
            files[f] = m
            items.append({"k": "sub", "id": qs(q), "dim": dim[q], "rows": dim[q], "cols": dim[q], "file": f})
        items.append({"k": "comment", "text": "# elements"})

        def block(kind, name, pairs):
            b = {"k": kind, "text": name, "els": [], "mats": []}
            for a, c in pairs:
                m = [[num() for _ in range(dim[c])] for _ in range(dim[a])]
                if name[0] != "f" and rng.random() < 0.5:
                    f = "op.%s_%d.%d_%d.%d" % ((name,) + a + c)
                    files[f] = m
                    b["mats"].append({"file": f})
                else:
                    m = [["%.6g" % rng.uniform(-2, 2) for _ in r] for r in m]
                    b["mats"].append({"rows": m})
                b["els"].append([qs(a), qs(c), dim[a], dim[c]])
            items.append(b)
        for w in range(wilson):
            def ok(a, c):
                if a[0] != c[0] + 1: return False
                return sym == "U1" or abs(a[1] - c[1]) == 1
            block("f", "f 0 %d" % w, [(a, c) for a in ids for c in ids if ok(a, c) and rng.random() < 0.9])
        com()
        e = {"k": "e", "text": "e"}
        items.append(e)
        com()
        for k in range(rng.randrange(0, 4)):
            block("op", rng.choice(["s", "s", "d" if sym == "QS" else "s"]) + "op%d" % k, [(a, a) for a in ids if rng.random() < 0.8])
            com()
        if rng.random() < 0.6:
            items.append({"k": "end", "text": "z"})
            if rng.random() < 0.5: items.append({"k": "junk", "text": "99 not used"})
        # one inconsistency
        bad = rng.random() < 0.45 and n > 10
        if bad:
            subs_ = [x for x in items if x["k"] == "sub"]
            blocks = [x for x in items if x["k"] in ("f", "op") and x["els"]]
            how = rng.choice(["noscale", "noe", "dup", "moresubs", "fewer", "extraf", "dropf", "dim", "dim0", "unknown", "junk", "cols", "rows"])
            if how == "noscale": items = [x for x in items if x["k"] != "scale"]
            elif how == "noe": items.remove(e)
            elif how == "dup": items.insert(items.index(subs_[-1]), dict(subs_[0]))
            elif how in ("moresubs", "fewer"): items[[x["k"] for x in items].index("header")]["text"] = "1 0 %d" % (len(ids) + (1 if how == "moresubs" else -1))
            elif how == "extraf": items.insert(items.index(e), {"k": "f", "text": "f 0 9", "els": [], "mats": []})
            elif how == "dropf": items.remove([x for x in items if x["k"] == "f"][-1])
            elif how == "dim": subs_[0]["dim"] += rng.choice([1, -1]) if subs_[0]["dim"] > 1 else 1
            elif how == "dim0": subs_[0]["dim"] = 0
            elif how == "unknown" and blocks: rng.choice(blocks)["els"][0][rng.randrange(2)] = qs((50, 1))
            elif how == "junk": items.insert(items.index(e), {"k": "junk", "text": "y 3"})
            elif how in ("rows", "cols") and blocks:
                b = rng.choice(blocks)
                m, i = b["mats"][0], 2 if how == "rows" else 3
                rows = files[m["file"]] if "file" in m else m["rows"]
                if how == "rows" and "file" not in m:
                    continue   # a missing inline row shifts the rest of the file: covered by the short-file cases of C20
                b["els"][0][i] += 1
                if how == "rows": rows.append(list(rows[0]))
                else: [r.append("1") for r in rows]
        case = {"items": items, "files": files, "sym": sym, "wilson": wilson, "scale": float(scale),
                "subs": int([x for x in items if x["k"] == "header"][0]["text"].split()[2]), "nmax": rng.choice([1, 3, 6])}
        res.append(case)
    return res


def write_template(case, d):
    lines = []
    for x in case["items"]:
        if x["k"] == "sub": lines += [x["id"], str(x["dim"]), "DIAG  " + x["file"]]
        elif x["k"] in ("f", "op"):
            lines += [x["text"], str(len(x["els"]))]
            for el, m in zip(x["els"], x["mats"]):
                lines.append("%s %s" % (el[0], el[1]))
                lines += [m["file"]] if "file" in m else [" ".join(r) for r in m["rows"]]
        elif x["k"] == "e": lines += ["e", "123"]
        else: lines.append(x["text"])
    open(os.path.join(d, "template", "data.in"), "w").write("\n".join(lines) + "\n")
    for f, m in case["files"].items():
        open(os.path.join(d, "template", f), "w").write("{" + ",".join("{" + ",".join(r) + "}" for r in m) + "}\n")


def numeric(m, coefs):
    env = {k: float(v) for k, v in VARS.items()}
    ev = lambda s: eval(re.sub(r"coefxi\[1,0\]", repr(coefs["xi"][0][0]), s.replace("Sqrt[3]", "3**0.5")), {"__builtins__": {}}, env)
    return [[ev(s) for s in r] for r in m]


def read_bin(f):
    import struct
    b = open(f, "rb").read()
    r, c = struct.unpack("II", b[:8])
    v = struct.unpack("%dd" % (r * c), b[8:])
    return [list(v[i * c:(i + 1) * c]) for i in range(r)]


def mm(a, b): return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def check_data(case, d, out):
    """compare the written data file with the specified output items; returns an error or None"""
    lines = open(os.path.join(d, "data")).read().splitlines()
    pos = 0
    items = case["items"]
    coefs, theta = read_coefs(d)
    vec, val = {}, {}
    factor = 1 / case["scale"]
    for x in items:
        if x["k"] != "sub": continue
        nm = x["id"].replace(" ", ".")
        h, v = numeric(case["files"][x["file"]], coefs), read_bin(os.path.join(d, "vec." + nm))
        hv = mm(mm(v, h), list(zip(*v)))
        n = len(h)
        for i in range(n):
            for j in range(n):
                if abs(sum(v[i][k] * v[j][k] for k in range(n)) - (i == j)) > 1e-10: return "eigenvectors of %s are not orthonormal" % nm
                if i != j and abs(hv[i][j]) > 1e-9: return "eigenvectors of %s do not diagonalise the matrix" % nm
        ev = [hv[i][i] * factor for i in range(n)]
        if ev != sorted(ev) and any(ev[i] > ev[i + 1] + 1e-9 for i in range(n - 1)): return "eigenvalues of %s unordered" % nm
        vec[x["id"]], val[x["id"]] = v, ev
    emin = min(min(v) for v in val.values())
    close = lambda a, b: abs(a - b) <= 1e-9 * (1 + abs(b))

    def take():
        nonlocal pos
        pos += 1
        return lines[pos - 1] if pos <= len(lines) else ""
    for o in out:
        x = items[o["i"] - 1] if o["i"] else None
        if o["t"] == "copy":
            l = take()
            if l != x["text"]: return "comment %r instead of %r" % (l, x["text"])
        elif o["t"] == "header":
            l = take()
            if l.split() != ["1", str(case["nmax"]), str(case["subs"])]: return "header %r" % l
        elif o["t"] == "energies":
            a, b, c = take(), take(), take()
            if a.split() != x["id"].split() or b.split() != [str(x["dim"])]: return "subspace %r %r instead of %s" % (a, b, x["id"])
            e = [float(y) for y in c.split()]
            if len(e) != x["dim"] or not all(close(p, q - emin) for p, q in zip(e, val[x["id"]])): return "energies of %s: %s instead of %s" % (x["id"], e, [q - emin for q in val[x["id"]]])
        elif o["t"] == "block":
            a, b = take(), take()
            if a != x["text"] or b.strip() != str(len(x["els"])): return "block header %r %r" % (a, b)
        elif o["t"] == "rotated":
            el, m = x["els"][o["a"] - 1], x["mats"][o["a"] - 1]
            a = take()
            if a.split() != (el[0] + " " + el[1]).split(): return "element %r instead of %s" % (a, el[:2])
            rows = numeric(case["files"][m["file"]] if "file" in m else m["rows"], coefs)
            exp = mm(mm(vec[el[0]], rows), list(zip(*vec[el[1]])))
            for r in exp:
                g = [float(y) for y in take().split()]
                if len(g) != len(r) or not all(close(p, q) for p, q in zip(g, r)): return "%s %s: row %s instead of %s" % (x["text"], el[:2], g, r)
        elif o["t"] == "e":
            if take() != "e" or not close(float(take()), emin / factor): return "ground state energy"
        else:
            if take() != "z": return "coefficient marker"
            for tab in (coefs["xi"][0], coefs["zeta"][0]):
                if take().strip() != str(case["nmax"]): return "length of the coefficient table"
                for i in range(case["nmax"] + 1):
                    l = take()
                    if not l or abs(float(l) - tab[i]) > 1e-12 * (1 + abs(tab[i])): return "coefficient %d: %r instead of %r" % (i, l, tab[i])
    return None if pos == len(lines) else "%d superfluous lines" % (len(lines) - pos)


def templates(ck, exe):
    cases = template_cases(ck)
    small = [{"items": [{k: v for k, v in x.items() if k in ("k", "id", "dim", "rows", "cols", "els")} for x in c["items"]], "subs": c["subs"], "wilson": c["wilson"]} for c in cases]
    r = vlib.tlc_must(ck, "Template", "SPECIFICATION Spec\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n", workers=4, files={"cases.json": json.dumps(small)})
    base = os.path.join(ck.tmp, "tp")
    st = {"done": 0, "fail": 0}

    def one(i):
        c = cases[i]
        d = os.path.join(base, str(i))
        inst_dir(random.Random(ck.seed * 10000 + i), d, c["sym"], c["nmax"])
        write_template(c, d)
        spec = vlib.json_out(r, "out%d.json" % (i + 1))
        plain = spec["status"] == "done" and i % 4 == 0
        open(os.path.join(d, "mine.txt"), "w").write("keep me")
        p = vlib.sh([exe, "--generate-temporaries"], cwd=d, timeout=60)
        err = None
        if spec["status"] == "done":
            if p.returncode != 0: err = "consistent template rejected: %s" % p.stderr[-200:].decode(errors="replace")
            else:
                err = check_data(c, d, spec["out"])
                if not err and plain:    # the same without the temporary files
                    first = open(os.path.join(d, "data")).read()
                    os.unlink(os.path.join(d, "data"))
                    q = vlib.sh([exe], cwd=d, timeout=60)
                    left = sorted(set(os.listdir(d)) - {"param", "Delta.dat", "FSOL.dat", "FSOLNEG.dat", "template", "data", "mine.txt"})
                    if q.returncode or open(os.path.join(d, "data")).read() != first: err = "different result without --generate-temporaries"
                    elif left: err = "temporary files left: %s" % left
                    elif not os.path.exists(os.path.join(d, "mine.txt")) or not os.path.exists(os.path.join(d, "Delta.dat")): err = "unrelated file removed"
        elif p.returncode != 1: err = "inconsistent template: exit status %s" % p.returncode
        elif os.path.exists(os.path.join(d, "data")): err = "inconsistent template: data file written"
        return spec["status"], err
    for i, (s, err) in enumerate(vlib.par(one, list(range(len(cases))))):
        st[s] += 1
        if err:
            d = os.path.join(base, str(i))
            ck.violation("template %d (%s): %s" % (i, cases[i]["sym"], err), "template:%s" % err.split(":")[0],
                         {os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(d) for f in fs})
        else: ck.traces()
    ck.extra["templates"] = st


def run(ck):
    tools = vlib.build_tools(os.path.join(ck.tmp, "bin"), ["matrix"])
    box = {}
    th = threading.Thread(target=lambda: box.update(exprs=expressions(ck)))
    th.start()
    inst = build_instantiate(ck)
    th.join()
    exprs = box["exprs"]
    ck.extra["expressions"] = {"accepted": sum(e[1] for e in exprs), "rejected": sum(not e[1] for e in exprs)}
    d, coefs, theta = matrix_accept(ck, tools["matrix"], exprs)
    matrix_reject(ck, tools["matrix"], d, exprs, coefs, theta)
    inst_values(ck, inst, exprs)
    templates(ck, inst)
