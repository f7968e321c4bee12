"""Reduced matrix elements of operators of the seed cluster, and the delta peaks of their spectral functions."""
import math

# irreducible representations carried by the operators of each symmetry type, in internal charges (su2: twice the spin)
_TZ = (-1, 0, 1)
_S = (1, -1)
DOUBLET = {
    "DBLISOSZ": [(1, 0, s) for s in _S] + [(0, 1, s) for s in _S], "DBLQSZ": [(1, 0, s) for s in _S] + [(0, 1, s) for s in _S],
    "DBLSU2": [(1, 0), (0, 1)], "ISO": [(1, 1)], "ISO2": [(1, 1)], "ISOLR": [(1, 1, 0)], "ISOSZ": [(1, s) for s in _S], "ISOSZLR": [(1, s, 0) for s in _S],
    "NONE": [()], "P": [(1,)], "QJ": [(1, 1)], "QS": [(1, 1)], "QSLR": [(1, 1, 0)], "QST": [(1, 1, 2)], "QSTZ": [(1, 1, t) for t in _TZ],
    "QSZ": [(1, s) for s in _S], "QSZTZ": [(1, s, t) for s in _S for t in _TZ], "SL": [(1,)], "SL3": [(1, 0, 0)], "SPSU2": [(1,)], "SPSU2LR": [(1, 0)],
    "SPSU2T": [(1, 2)], "SPU1": [(s,) for s in _S], "SPU1LR": [(s, 0) for s in _S], "SU2": [(1,)], "U1": [(1,)]}
TRIPLET = {
    "ISO": [(0, 2)], "ISO2": [(0, 2)], "ISOLR": [(0, 2, 0)], "ISOSZ": [(0, m) for m in (2, -2, 0)], "ISOSZLR": [(0, m, 0) for m in (2, -2, 0)],
    "QS": [(0, 2)], "QSLR": [(0, 2, 0)], "QST": [(0, 2, 0)], "QSTZ": [(0, 2, 0)], "QSZ": [(0, m) for m in (2, -2, 0)], "QSZTZ": [(0, m, 0) for m in (2, -2, 0)],
    "SPSU2": [(2,)], "SPSU2LR": [(2, 0)], "SPSU2T": [(2, 0)], "SPU1": [(m,) for m in (2, -2, 0)], "SPU1LR": [(m, 0) for m in (2, -2, 0)]}
ORBTRIPLET = {"QST": [(0, 0, 2)]}
QUADRUPLET = {"QJ": [(1, 3)]}
FIELD = {"QSZ", "DBLISOSZ", "DBLQSZ", "ISOSZ", "ISOSZLR", "QSZLR", "SPU1", "SPU1LR"}     # doublets are resolved by spin
KINDS = {"d": DOUBLET, "t": TRIPLET, "ot": ORBTRIPLET, "q": QUADRUPLET}
# operators which the program does not implement for all numbers of channels (it says so and stops)
MAXCH = {("t", "QSZ"): 2, ("t", "ISO"): 2, ("d", "ISO"): 2, ("t", "SPSU2"): 2}
PREFIX = {"s": "corr", "p": "corr", "d": "spec", "t": "spin", "ot": "orbspin", "q": "specq"}
LETTER = {"s": "s", "p": "p", "d": "d", "t": "t", "ot": "o", "q": "q"}
PARAM = {"s": "specs", "p": "specs", "d": "specd", "t": "spect", "ot": "specot", "q": "specq"}


def couples(s, a, rep, b):
    """does an operator of the representation `rep' connect the multiplet a to the multiplet b?"""
    for t, x, r, y in zip(s.types, a, rep, b):
        if t == "su2":
            if not (abs(x - r) <= y <= x + r and (x + r + y) % 2 == 0): return False
        elif t == "u1":
            if y != x + r: return False
        elif t == "z2":
            if (x + r + y) % 2: return False
        elif t == "z3":
            if (x + r - y) % 3: return False
    return True


def apply_rep(rng, s, a, rep):
    """charges of a multiplet which the operator reaches from a (or None)"""
    b = []
    for t, x, r in zip(s.types, a, rep):
        if t == "su2":
            c = [y for y in range(abs(x - r), x + r + 1, 2)]
            b.append(rng.choice(c))
        elif t == "z2": b.append((x + r) % 2)
        elif t == "z3": b.append((x + r) % 3)
        else: b.append(x + r)
    return tuple(b)


def ranks(s, rep):
    return [r for t, r in zip(s.types, rep) if t == "su2"]


def factor(s, rep, b):
    """sum over the components of the squared Clebsch-Gordan coefficients of a multiplet pair, for one operator component"""
    f = 1.0
    for t, r, y in zip(s.types, rep, b):
        if t == "su2": f *= (y + 1) / (r + 1)
    return f


def spin_index(s):
    """position of the spin projection among the charges (field types)"""
    return {"QSZ": 1, "DBLISOSZ": 2, "DBLQSZ": 2, "ISOSZ": 1, "ISOSZLR": 1, "QSZLR": 1, "SPU1": 0, "SPU1LR": 0}[s.name]


class Op:
    def __init__(self, kind, name, blocks):
        self.kind, self.name, self.blocks = kind, name, blocks      # blocks: {(i of b, i of a): (rep, matrix [b][a])}


def make(rng, s, seed, kind, name, lo=1, hi=3, cplx=False):
    """operator with random integer matrix elements"""
    blocks = {}
    reps = {"s": [tuple(0 for _ in s.types)], "p": [tuple(int(t == "z2") for t in s.types)]}.get(kind) or KINDS[kind].get(s.name, [])
    for i, (qb, eb) in enumerate(seed):
        for j, (qa, ea) in enumerate(seed):
            for rep in reps:
                if not couples(s, qa, rep, qb): continue
                m = [[rng.randint(lo, hi) * rng.choice([1, -1] + [1j, 1 + 1j, 1 - 2j] * cplx) for _ in ea] for _ in eb]
                if kind in "sp" and (j, i) in blocks: m = [[x.conjugate() for x in r] for r in zip(*blocks[(j, i)][1])]
                if kind == "s": m = [[m[x][y] if x > y else m[y][x].conjugate() if x < y else int(m[x][x].real) for y in range(len(ea))] for x in range(len(eb))]
                blocks[(i, j)] = (rep, m)
    return Op(kind, name, blocks)


def text(s, seed, op):
    lab = lambda q: " ".join(str(x) for x in s.lab(q))
    out = [LETTER[op.kind] + op.name, "%d" % len(op.blocks)]
    for (i, j), (rep, m) in op.blocks.items():
        out.append(lab(seed[i][0]) + "  " + lab(seed[j][0]))
        out += [" ".join("(%d,%d)" % (x.real, x.imag) if isinstance(x, complex) else str(x) for x in r) for r in m]
    return out


def spectra(s, op1, op2):
    """(name of the spectral function, spin) for the pair of operators"""
    n = op1.name + "-" + op2.name
    if op1.kind == "d" and s.name in FIELD: return [(n + "-u", 1), (n + "-d", -1)]
    return [(n, 0)]


def fermionic(op):
    return op.kind in ("d", "q")


def peaks(p, op1, op2, prob, spin=0):
    """delta peaks {frequency: (greater, lesser)}; prob: probability of each level of the seed (all its states)"""
    s, base, k = p.sym, [], 0
    for q, es in p.seed:
        base.append(k)
        k += len(es)
    dim = p.dim
    res = {}
    for (i, j), (rep, m) in op1.blocks.items():
        if (i, j) not in op2.blocks: continue
        if spin and rep[spin_index(s)] != spin: continue
        (qb, eb), (qa, ea) = p.seed[i], p.seed[j]
        f = factor(s, rep, qb)
        for x, y in ((x, y) for x in range(len(eb)) for y in range(len(ea))):
            w = f * m[x][y].conjugate() * op2.blocks[(i, j)][1][x][y]
            g, l = res.get(eb[x] - ea[y], (0.0, 0.0))
            res[eb[x] - ea[y]] = (g + w * prob.get(base[j] + y, 0.0) / dim(qa), l + (1 if fermionic(op1) else -1) * w * prob.get(base[i] + x, 0.0) / dim(qb))
    return res
