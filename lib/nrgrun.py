"""Recorded runs of the engine as traces for NRGRun.tla (from the raw-data output written by the H5Easy stand-in)."""
import collections, json, math, os, re
import eng, vlib

UNIT = 1e-7     # energies are handed to TLC as multiples of this (a coarser unit in steps with large energies)
RAW = {"h5raw": "true", "h5all": "true", "h5struct": "true"}


def unlab(sym, lab):
    """engine label -> charges (su2: 2j)"""
    if not sym.types: return ()
    key = (sym.name, lab)
    if key not in _un:
        res = []
        base = list(sym.seed0)
        for i, t in enumerate(sym.types):
            for x in ((0, 1) if t == "z2" else (0, 1, 2) if t == "z3" else range(-80, 81)):
                b = list(base); b[i] = x
                if sym.lab(tuple(b))[i] == lab[i]:
                    if t == "su2" and x < 0: continue
                    res.append(x)
                    break
            else:
                raise vlib.CheckError("label %s of %s has no charges" % (lab, sym.name))
        _un[key] = tuple(res)
    return _un[key]


_un = {}


def read_raw(path):
    """-> {path: [fields]} of a raw.h5 text file"""
    res = {}
    for line in open(path, errors="replace"):
        f = line.rstrip("\n").split("\t")
        res[f[0]] = f[1:] if f[1:] != [""] else []
    return res


def name2lab(n):
    return tuple(int(x) for x in n.split("_"))


def scale(par, N, channels, substeps):
    """SCALE(N) as documented (Yoshida-Whitaker-Oliveira / Campo-Oliveira discretisations)"""
    L, z, d = float(par["Lambda"]), float(par["z"]), par["discretization"][0]
    s = 0.5 * (1 + 1 / L) if d == "Y" else (1 - 1 / L) / math.log(L)
    s *= L ** (-N / (2.0 * channels) + 1.5 - z) if substeps else L ** (-(N - 1) / 2.0 + 1 - z)
    return s * float(par["bandrescale"])


def params_of(raw):
    return {k[7:]: (v[0] if v else "") for k, v in raw.items() if k.startswith("params/")}


def sites(sym, channels, substeps):
    def modes(c):
        return [list(sym.mode(c, sp)) for sp in ((1, -1) if sym.spin == 2 else (1,))]
    if substeps:
        # the charges of one substep: the empty channel relative to half filling
        return [{"modes": modes(c), "vac": list(sym.vac(1))} for c in range(channels)]
    return [{"modes": sum((modes(c) for c in range(channels)), []), "vac": list(sym.vac(channels))}]


def trace(symname, d, stdout, raw=None, levels=True, maxsteps=10 ** 6):
    """-> dict for traces.json; raises CheckError when the recording is unusable"""
    sym = eng.SYMS[symname]
    raw = raw if raw is not None else read_raw(os.path.join(d, "raw.h5"))
    par = params_of(raw)
    ch, nmax, ninit = int(par["channels"]), int(par["Nmax"]), int(par["Ninit"])
    sub = par["substeps"] in ("1", "true")
    absolute = par["absolute"] in ("1", "true")
    groups = collections.defaultdict(dict)      # iteration -> label -> {field: values}
    for k, v in raw.items():
        m = re.match(r"(\d+)/eigen//([-\d_]+)/(\w+)$", k)
        if m: groups[int(m.group(1))].setdefault(name2lab(m.group(2)), {})[m.group(3)] = v
    tot = {}
    for k, v in raw.items():
        m = re.match(r"store/(\d+)/data/([-\d_]+)/total$", k)
        if m: tot[(int(m.group(1)), name2lab(m.group(2)))] = int(v[0])
    flags = lambda *n: any(par.get(x) in ("1", "true") for x in n)
    lastall = flags("lastall") or (flags("cfs", "cfsgt", "cfsls", "fdm", "fdmgt", "fdmls", "fdmmats", "fdmexpv") and not flags("lastalloverride"))
    ka = par.get("keepall", "")
    kp = {"keep": int(par["keep"]), "keepmin": int(par["keepmin"]), "ke": -1,
          "sg": 0, "sgmax": int(par["safeguardmax"]), "lastall": lastall,
          "kind": ka if ka in ("even", "odd") else ("list" if ka else ""),
          "list": [int(x) for x in ka.split(",") if x.strip()] if ka not in ("", "even", "odd") else []}
    reports = re.findall(r"Cmax=(\S+) nrkept=(\d+) nrkeptmult=(\d+) nrall=(\d+) nrallmult=(\d+)", stdout)
    # with retries only the last report of a step counts
    per_step = []
    for part in re.split(r"\*\*\*\*\* \[NRG\] Iteration ", stdout)[1:]:
        part = part.split("***** [DM]")[0]
        m = re.findall(r"Cmax=(\S+) nrkept=(\d+) nrkeptmult=(\d+) nrall=(\d+) nrallmult=(\d+)", part)
        per_step.append([int(x) for x in m[-1][1:]] if m else [])
    t = {"types": list(sym.types), "sites": sites(sym, ch, sub), "first": ninit, "par": kp, "seed": [], "steps": [], "levels": levels}
    for lab, f in sorted(groups.get(ninit, {}).items()):
        t["seed"].append({"c": list(unlab(sym, lab)), "n": len(f["value_orig"])})
    for i in range(ninit, nmax):
        g = groups.get(i + 1)
        if not g or i - ninit >= maxsteps: break
        subs, E, unit = [], [], UNIT
        while max(float(f["crit"][-1]) for f in g.values()) / unit > 2e9: unit *= 10
        for lab, f in sorted(g.items()):
            es = [int(round(float(x) / unit)) for x in f["crit"]]
            subs.append({"c": list(unlab(sym, lab)), "dim": tot.get((i + 1, lab), -1), "comp": len(es), "kept": int(f["nrkept"][0]), "es": es if levels else []})
            E += es if levels else []
        s = {"subs": subs, "E": sorted(E), "ke": -1, "sg": max(0, int(round(float(par["safeguard"]) / unit))), "report": []}
        if float(par["keepenergy"]) > 0:
            s["ke"] = int(round(float(par["keepenergy"]) * (scale(par, i + 1, ch, sub) if absolute else 1.0) / unit))
        j = i - ninit
        if j < len(per_step) and per_step[j]:
            k, km, a, am = per_step[j]
            s["report"] = [k, km, a, am]
        t["steps"].append(s)
    t["expected_steps"] = min(nmax - ninit, maxsteps)
    return t


CFG = "SPECIFICATION Spec\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n"


def judge(ck, traces, groups=None, timeout=600):
    """verdicts (list of {steps, why}) of the specification for the recorded runs"""
    groups = groups or min(len(traces), vlib.NCPU)
    size = lambda t: sum(len(s["E"]) for s in t["steps"])
    order = sorted(range(len(traces)), key=lambda i: -size(traces[i]))
    parts = [order[i::groups] for i in range(groups)]
    res = [None] * len(traces)

    def one(part):
        r = vlib.tlc_must(ck, "NRGRun", CFG, workers=1, timeout=timeout,
                          files={"traces.json": json.dumps([traces[i] for i in part])})
        for k, i in enumerate(part):
            res[i] = vlib.json_out(r, "verdict%d.json" % (k + 1))
    vlib.par(one, [x for x in parts if x])
    return res


# ---------------------------------------------------------------- inputs
def random_chain(rng, N, Lambda=2.0, decay=True, spread=0.6):
    """hopping and on-site tables of a generic chain"""
    xi = [rng.uniform(0.5, 1.2) * (Lambda ** (-n / 2.0) if decay else 1) for n in range(N - 1)]
    ze = [rng.uniform(-spread, spread) * (Lambda ** (-n / 2.0) if decay else 1) for n in range(N)]
    return xi, ze


def random_problem(name, ch, N, rng, params=None, coeffactor=1, label="", cplx=None, nseed=2, theta=None):
    """a chain of generic coefficients: the levels are not known, but every step must follow the rules"""
    s = eng.SYMS[name]
    nt = coeffactor * ch
    chain = [random_chain(rng, N) for _ in range(nt)]
    if s.same: chain = [chain[i // ch * ch] for i in range(nt)]
    if s.ph:
        # isospin symmetry: no on-site energies
        chain = [(x, [0.0] * N) for x, z in chain]
    seed = [(s.seed0, sorted(round(rng.uniform(0, 2), 6) for _ in range(rng.randint(1, 2))))]
    for q in s.spect[:max(0, nseed - 1)]:
        seed.append((q, sorted(round(rng.uniform(0, 2), 6) for _ in range(rng.randint(1, 2)))))
    return eng.Problem(name, ch, N, [(0, 0)] * nt, seed=seed, coeffactor=coeffactor, params=params, label=label, chain=chain, cplx=cplx, theta=theta)


SLOW = set("""
c++/legacy_Himp c++/legacy_discretization_dmft_asym_qs c++/legacy_discretization_ferromagnetic1 c++/legacy_fdmexpv2
c++/legacy_fdmexpv3 c++/legacy_sigma_trick_kondo c++/legacy_sigma_trick_siam_qs c++/legacy_spectral_gtls-qsz-T1e-10
c++/legacy_substeps_one_siam_ss c++/legacy_substeps_one_siam_std c++/test1_qs_Nmax=100 c++/test43_model_2orb
c++/test44_model_2orb_U c++/test45_model_2orb_JU c++sym_basic/legacy_qs_nrg1-tricpp c++sym_basic/legacy_qs_nrg1
c++sym_basic/legacy_qsz1 c++sym_basic/legacy_qsz1polarized c++sym_basic/legacy_qsz2 c++sym_basic/legacy_qsz_kondo
c++sym_basic/test74_QSZ c++sym_basic/test75_QSZ_polarized c++sym_basic/test76_QSZ_polarized2 c++sym_basic/test77_QSZ_polarized3
c++sym_more/legacy_O_fxx c++sym_more/legacy_iso_iso1 c++sym_more/legacy_iso_iso3 c++sym_more/legacy_sigma_trick_siam_iso
c++sym_more/legacy_spsu2-3ch-2 c++sym_more/legacy_spsu2-3ch-2gap c++sym_more/legacy_spsu21 c++sym_more/legacy_spsu24
c++sym_all/legacy_conductance_i1_1 c++sym_all/legacy_conductance_qsz c++sym_all/legacy_conductance_spu1 c++sym_all/legacy_dblisosz2
c++sym_all/legacy_globalop_Q1Q2-QS c++sym_all/legacy_globalop_Q1Q2-SPSU2 c++sym_all/legacy_iso2 c++sym_all/legacy_isosz_isosz2
c++sym_all/legacy_isoszlr1 c++sym_all/legacy_qslr c++sym_all/legacy_sl3 c++sym_all/legacy_spsu1lr4
c++sym_all/legacy_spsu1lr4_ref=spsu1 c++sym_all/legacy_spsu2lr_nogap c++sym_all/legacy_su2_su2_2 c++sym_all/legacy_su2_su2_3
c++sym_all/legacy_su2_su2_4 c++sym_all/test306_SPU1LR c++sym_all/test307_SU2 c++sym_all/test400QSZ_model=ONE
c++sym_all/test400QS_model=ONE c++sym_all/test401QSZ_model=ONE c++sym_all/test78_U1 complex/1ch_phi0.25
complex/complex_U1_x complex/complex_U1_y complex/complex_phi_small complex/complex_siam
complex/legacy_aniso-xz complex/legacy_chit_none-xyz-Bx complex/legacy_su2_aniso3 complex/zheevr1
""".split())     # examples that take more than a few seconds


def repo_inputs(quick, groups=("c++", "c++sym_basic", "c++sym_more", "c++sym_spsu2", "c++sym_all", "complex"), maxbytes=10 ** 9):
    """(name, symtype, data text, param text) of the example calculations that come with the repository"""
    res = []
    for g in groups:
        base = os.path.join(vlib.REPO, "test", g)
        if not os.path.isdir(base): continue
        for n in sorted(os.listdir(base)):
            d = os.path.join(base, n)
            fd, fp = os.path.join(d, "data"), os.path.join(d, "param")
            if not (os.path.isfile(fd) and os.path.isfile(fp)) or os.path.getsize(fd) > maxbytes: continue
            if quick and g + "/" + n in SLOW: continue
            data = open(fd, errors="replace").read()
            m = re.search(r"#\s*symtype\s+(\S+)", data, re.I)
            if m and m.group(1) in eng.SYMS:
                res.append((g + "/" + n, m.group(1), data, open(fp).read()))
    return res


def with_params(text, extra):
    """param text with additional settings (existing ones of the same name are replaced)"""
    out, insec = [], False
    for line in text.split("\n"):
        if re.match(r"\s*\[", line):
            insec = line.strip().startswith("[param]")
            out.append(line)
            if insec: out += ["%s=%s" % kv for kv in extra.items()]
            continue
        m = re.match(r"\s*(\w+)\s*=", line)
        if insec and m and m.group(1) in extra: continue
        out.append(line)
    return "\n".join(out)
