"""C28: calculations that the front end does by itself. Arguments: library, stream"""
import builtins
import glob
import itertools
import json
import os
import pickle
import shutil
import sys
import tempfile
import types

import numpy as np

import guimod
import pimod
import pyvh
from pyvh import out

libpath, salt = sys.argv[1:3]
r = pyvh.rng("gui-pipy" + salt)
base = os.path.join(pyvh.SCRATCH, "p" + salt)
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base)
tempfile.tempdir = os.path.join(base, "tmp")
os.makedirs(tempfile.tempdir)
pi = pimod.load(libpath)
guimod.qt()
pkg = types.ModuleType("pairinteraction_gui")
pkg.__path__ = [guimod.GUI]
sys.modules["pairinteraction_gui"] = pkg
import pairinteraction_gui.pipy_thread as pt  # noqa
from pairinteraction_gui.worker import AllQueues  # noqa

builtins.print = lambda *a, **k: None  # the front end prints a lot
import logging  # noqa
logging.disable(logging.CRITICAL)

F = ["Ex", "Ey", "Ez", "Bx", "By", "Bz"]
SPIN = {"Rb": .5, "Cs": .5, "Na": .5, "Sr1": 0, "Sr3": 1}
model_cache = pi.pireal.MatrixElementCache()


class Skip(Exception):
    pass


# ---------------------------------------------------------------- the model: what the parameters mean
def initial(p, which):
    k = "" if which is None else str(which)
    return (p["n" + k], p["l" + k], float(p["j" + k]), float(p["m" + k]))


def sides(p):
    """For every one-atom basis: species and the states around which it is built"""
    if p["button_id"] == 2 or p["button_id"] == 3:
        a, b = initial(p, 1), initial(p, 2)
        if p["samebasis"]:
            return [(p["species1"], [a, b])]
        return [(p["species1"], [a]), (p["species2"], [b])]
    w = 1 if p["button_id"] == 0 else 2
    return [(p[f"species{w}"], [initial(p, w)])]


def energy(m, species, q):
    return m.StateOne(species, *q).getEnergy()


def one(m, p, species, states, fields):
    m_cache = caches[(p["missingCalc"])]
    s = m.SystemOne(species, m_cache)
    for i, x in enumerate("NLJM"):
        d = p[f"delta{x}Single"]
        if d >= 0:
            lo, hi = min(q[i] for q in states) - d, max(q[i] for q in states) + d
            getattr(s, "restrict" + x)(lo, hi)
    d = p["deltaESingle"]
    if d >= 0:
        e = [energy(m, species, q) for q in states]
        s.restrictEnergy(min(e) - d, max(e) + d)
    s.setEfield([fields[f] for f in F[:3]])
    s.setBfield([fields[f] for f in F[3:]])
    s.enableDiamagnetism(bool(p["diamagnetism"]))
    return s


def step(p, i):
    n = p["steps"]
    keys = F + (["R"] if p["button_id"] == 2 else [])
    if all(p["min" + k] == p["max" + k] for k in keys):
        n = 1
    return n, {k: p["min" + k] + (p["max" + k] - p["min" + k]) * i / (n - 1) if n > 1 else p["min" + k] for k in keys}


def operator(s):
    b, h = s.getBasisvectors(), s.getHamiltonian()
    return (b @ h @ b.conj().T).toarray(), [tuple(q) for q in (x.flat() for x in s.getStates())], np.linalg.eigvalsh(h.toarray()) if h.shape[0] else np.array([])


def module(p):
    return pi.picomplex if any(p[a + f] for a in ("min", "max") for f in ("Ey", "By")) or p.get("refE") or p.get("refO") else pi.pireal


def reference_pair(p, m, fields):
    """Energies of the pair of initial states in the given fields (several where it is ambiguous)"""
    es = []
    sd = sides(p)
    for a in (1, 2):
        species, states = sd[0] if len(sd) == 1 else sd[a - 1]
        s = one(m, p, species, states, fields)
        s.diagonalize(1e-10)
        o = s.getOverlap(m.StateOne(species, *initial(p, a)))
        e = np.real(s.getHamiltonian().diagonal())
        es.append([e[k] for k in range(len(o)) if o[k] > o.max() - 1e-3])
    return [x + y for x in es[0] for y in es[1]]


def pair(p, m, fields, centre, symmetries):
    sd = sides(p)
    ones = []
    for species, states in sd:
        parts = []
        for parity in (m.EVEN, m.ODD) if symmetries.get("reflection") else (None,):
            s = one(m, p, species, states, fields)
            if parity is not None:
                s.setConservedParityUnderReflection(parity)
            try:
                s.diagonalize(1e-10)
                parts.append(s)
            except RuntimeError as err:
                if "contains no" not in str(err):
                    raise
        for s in parts[1:]:
            parts[0].add(s)
        ones.append(parts[0])
    t = m.SystemTwo(ones[0], ones[-1], ones[0].cache)
    if p["deltaEPair"] >= 0:
        t.restrictEnergy(centre - p["deltaEPair"], centre + p["deltaEPair"])
    t.setMinimalNorm(5e-2)
    t.setAngle(0)
    t.setDistance(fields["R"])
    t.setOrder(p["exponent"])
    for name, v in symmetries.items():
        if name == "momenta":
            if v is not None:
                t.setConservedMomentaUnderRotation(sorted({int(v), -int(v)}) if symmetries.get("reflection") else [int(v)])
        elif v is not None:
            getattr(t, "setConservedParityUnder" + name.capitalize())(v)
    return t


# ---------------------------------------------------------------- parameters
def draw_state(species, n):
    s = SPIN[species]
    l = r.choice([0, 0, 0, 1, 1, 2])
    j = r.choice([x for x in np.arange(abs(l - s), l + s + 1)])
    m = r.choice([x for x in np.arange(-j, j + 1)])
    return n, l, float(j), float(m)


def draw():
    p = {"button_id": r.choice([0, 1, 2, 2, 2, 3]), "missingCalc": int(r.random() < .7)}
    two = p["button_id"] == 2
    p["missingWhittaker"], p["precision"] = 1 - p["missingCalc"], 1e-12
    sp = r.choice(["Rb", "Rb", "Cs", "Sr1", "Sr3"])
    n = r.randint(38, 62)
    p["samebasis"] = p["button_id"] == 3 or (two and r.random() < .5)
    sp2 = sp if p["samebasis"] or r.random() < .6 else r.choice(["Rb", "Cs"])
    q1 = draw_state(sp, n)
    q2 = q1 if p["samebasis"] and r.random() < .6 and sp2 == sp else draw_state(sp2, n + r.choice([0, 0, 1]))
    if p["button_id"] == 0:
        p.update({"species1": sp, **{x + "1": v for x, v in zip("nljm", q1)}})
    elif p["button_id"] == 1:
        p.update({"species2": sp, **{x + "2": v for x, v in zip("nljm", q1)}})
    else:
        p.update({"species1": sp, **{x + "1": v for x, v in zip("nljm", q1)}, "species2": sp2, **{x + "2": v for x, v in zip("nljm", q2)}})
    p["deltaNSingle"] = r.choice([0, 1]) if two else r.choice([0, 1, 2])
    p["deltaLSingle"] = 1 if two else r.choice([1, 1, 2, 2])
    p["deltaJSingle"] = r.choice([-1, -1, 1, 1] if two else [-1, -1, 1])
    p["deltaMSingle"] = r.choice([-1, 0, 1]) if two else r.choice([-1, -1, 1])
    if two and max(SPIN[sp], SPIN[sp2]) >= 1:
        p["deltaMSingle"] = 0
    p["deltaESingle"] = r.choice([-1, -1, 40., 100.])
    fields(p)
    p["diamagnetism"] = r.random() < .3
    p["steps"] = r.choice([1, 2, 3, 3, 4])
    if two:
        p["deltaEPair"] = r.choice([5., 5., 20., 20., 60., -1])
        if p["deltaEPair"] < 0:
            p["deltaNSingle"], p["deltaMSingle"] = 0, r.choice([0, 0, 1])
        elif p["deltaEPair"] > 20 and p["deltaMSingle"] < 0:
            p["deltaMSingle"] = 0
        for x in "NLJM":
            p[f"delta{x}Pair"] = -1
        p["exponent"] = r.choice([3, 3, 3, 4, 5])
        p["minR"] = round(r.uniform(5, 12), 3)
        p["maxR"] = p["minR"] if r.random() < .4 else round(r.uniform(4, 15), 3)
        w = r.random()
        if w < .3:  # blocks of special interest: sectors of the initial state, momenta of all atoms
            for f in F:
                p["min" + f] = p["max" + f] = 0.
            p["exponent"] = 3
            if w > .15 and not p["samebasis"]:
                p["deltaMSingle"], p["deltaNSingle"], p["deltaEPair"] = -1, 0, 5.
                p["deltaJSingle"] = r.choice([-1, 0, 0, 1])
        bound(p)
        symmetries(p)
        if w < .15:
            p["sametrafo"] = True
        elif w < .3 and (p["m1"] + p["m2"]) % 1 == 0:
            p["conserveM"], p["sametrafo"] = True, False
    return p


def bound(p):
    """Pairs are kept small"""
    def count(species, states):
        s, k = SPIN[species], 0
        lim = lambda i, x, d: d < 0 or min(q[i] for q in states) - d <= x <= max(q[i] for q in states) + d  # noqa
        for l in range(6):
            for j in np.arange(abs(l - s), l + s + 1):
                if lim(1, l, p["deltaLSingle"]) and lim(2, j, p["deltaJSingle"]):
                    k += sum(1 for m in np.arange(-j, j + 1) if lim(3, m, p["deltaMSingle"]))
        ns = [q[0] for q in states]
        return k * (max(ns) - min(ns) + 2 * p["deltaNSingle"] + 1)
    for k, v in [("deltaNSingle", 0), ("deltaMSingle", 0), ("deltaJSingle", 1), ("deltaJSingle", 0), ("deltaLSingle", 0)]:
        sd = sides(p)
        if count(*sd[0]) * count(*sd[-1]) <= (2600 if p["deltaEPair"] >= 0 else 500):
            break
        if p[k] < 0 or p[k] > v:
            p[k] = v


def fields(p):
    for f in F:
        p["min" + f] = p["max" + f] = 0.
    axes = r.choice([[], ["z"], ["z"], ["x", "z"], ["x", "y", "z"]])
    for k in r.choice([["E"], ["B"], ["E", "B"], []]):
        for a in axes:
            v = [0, round(r.uniform(-3, 3), 3) if k == "E" else round(r.uniform(-30, 30), 2)]
            r.shuffle(v)
            w = r.random()
            p["min" + k + a], p["max" + k + a] = v if w < .6 else (v[0] or v[1],) * 2


def symmetries(p):
    zero = lambda *k: all(p[a + x] == 0 for x in k for a in ("min", "max"))  # noqa
    # as the front end chooses them
    inv = p["samebasis"] and zero("Ex", "Ey", "Ez")
    per = p["samebasis"] and p["exponent"] == 3
    ref = zero("Ex", "Ey", "Bx", "By", "Bz") and p["m1"] + p["m2"] == 0
    # each atom needs opposite momenta
    ref = ref and (p["samebasis"] or p["deltaMSingle"] < 0 or p["m1"] == 0)
    rot = zero("Ex", "Ey", "Bx", "By")
    on = r.random() < .8
    for x, v in [("inv", inv), ("per", per), ("ref", ref)]:
        v = v and on and r.random() < .7
        p[x + "E"] = p[x + "O"] = bool(v)
        if v and r.random() < .15:
            p[x + r.choice("EO")] = False
    p["conserveM"] = bool(rot and on and r.random() < .7)
    p["sametrafo"] = r.random() < .4
    p["zerotheta"] = True


def vary(p):
    """A slightly different run: what is remembered from the first must not be taken for the second"""
    p = dict(p)
    w = r.randrange(9)
    ks = [k for k in ("1", "2") if "n" + k in p]
    k = r.choice(ks)
    if w == 0:  # another initial state, possibly within the same ranges
        q = draw_state(p["species" + k], p["n" + k])
        p.update({x + k: v for x, v in zip("nljm", q)})
        if p["button_id"] in (2, 3) and r.random() < .3:
            p.update({x + "2": p[x + "1"] for x in "nljm" if p["species1"] == p["species2"]})
        if p["button_id"] == 2:
            symmetries(p)
    elif w == 1:
        x = r.choice("NLJME")
        two = p["button_id"] == 2
        p[f"delta{x}Single"] = (r.choice([0, 1]) if two else r.choice([-1, 1, 2])) if x in "JM" else r.choice([1] if two else [1, 2]) if x == "L" else 0 if x == "N" else r.choice([-1, 50.])
        if two:
            symmetries(p)
    elif w == 2:
        p["diamagnetism"] = not p["diamagnetism"]
    elif w == 3:
        p["missingCalc"] = 1 - p["missingCalc"]
    elif w == 4:
        f = [x for x in F if p["min" + x] != p["max" + x]]
        for x in f[:1]:
            p["max" + x] = p["max" + x] + r.choice([1e-3, .5, 1e-7])
        p["steps"] = r.choice([1, 2, 3, 4])
    elif w == 5 and p["button_id"] == 2:
        p["exponent"] = r.choice([x for x in (3, 4, 5) if x != p["exponent"]])
        if p["perE"] or p["perO"]:
            symmetries(p)
    elif w == 6 and p["button_id"] == 2:
        p["deltaEPair"] = r.choice([5., 20., 21.])
    elif w == 7 and p["button_id"] == 2:
        symmetries(p)
    else:
        fields(p)
        if p["button_id"] == 2:
            symmetries(p)
    if p["button_id"] == 2:
        bound(p)
    return p


# ---------------------------------------------------------------- one run and its judgement
def run(p, d, num_pr, pass_atom, case):
    conf = os.path.join(d, "conf")
    os.makedirs(conf, exist_ok=True)
    q = AllQueues()
    t = pt.PipyThread(q, pass_atom=pass_atom)
    params = dict(p, pathConf=os.path.join(conf, "conf.json"), pathCache=os.path.join(d, "cache"), NUM_PROCESSES=num_pr)
    t.setParams(params)
    t.setNumProcesses(num_pr)
    lines = []
    real = q.processOneLine
    q.processOneLine = lambda line: (lines.append(line), real(line))
    try:
        t.run()
    finally:
        t.killPool()
    return q, lines, json.load(open(os.path.join(conf, "settings.json")))


class Dying:
    """A module whose dump() ends the process at the n-th file, in the midst of it"""
    left = 0

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        return getattr(self.real, name)

    def dump(self, obj, f, *a, **k):
        Dying.left -= 1
        if Dying.left == 0:
            data = self.real.dumps(obj, *a, **k)
            f.write(data[:len(data) * r.randrange(4) // 4])
            f.flush()
            os._exit(7)
        self.real.dump(obj, f, *a, **k)


def killed(p, d, pass_atom):
    """An earlier run of the same calculation that is killed while it writes"""
    pid = os.fork()
    if not pid:
        try:
            Dying.left = r.randrange(1, 9)
            pt.pickle, pt.json = Dying(pickle), Dying(json)
            run(p, d, 1, pass_atom, "")
        finally:
            os._exit(0)
    st = os.waitpid(pid, 0)[1]
    out.count("runs killed while writing", os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7)


def close(a, b, tol=2e-5):
    return len(a) == len(b) and (len(a) == 0 or np.max(np.abs(np.sort(a) - np.sort(b))) < tol)


def complete(p):
    """Do the blocks that were asked for contain everything?"""
    return not p["sametrafo"] and all(p[x + "E"] == p[x + "O"] for x in ("inv", "per", "ref"))


def no_levels(p, m, st, want):
    """Fields can move all states of a block out of the range of energies"""
    sy = {"momenta": want["pair.momenta"], **{s: {"E": "EVEN", "O": "ODD", None: None}[want[s]] for s in ("inversion", "permutation", "reflection")}}
    for ref in reference_pair(p, m, step(p, 0)[1]):
        try:
            operator(pair(p, m, step(p, st)[1], ref, sy))
        except RuntimeError as err:
            if "contains no" in str(err):
                return True
            raise
    return False


def sectors(p, m, ref, listed, bad):
    """Only what is connected to the initial state is of interest if this has been requested"""
    key = lambda d: tuple(d[k] for k in ("inversion", "permutation", "reflection", "pair.momenta"))  # noqa
    listed = {key(d) for d in listed}
    choices = [[x for x in "OE" if p[k + x]] or [None] for k in ("inv", "per", "ref")]
    for c in itertools.product(*choices, [abs(p["m1"] + p["m2"]) if choices[2] != [None] else p["m1"] + p["m2"]] if p["conserveM"] else [None]):
        sy = {"momenta": c[3], **{s: {"E": "EVEN", "O": "ODD", None: None}[x] for s, x in zip(("inversion", "permutation", "reflection"), c)}}
        try:
            t = pair(p, m, step(p, 0)[1], ref, sy)
            o = np.sum(t.getOverlap(m.StateTwo([p["species1"], p["species2"]], *zip(initial(p, 1), initial(p, 2)))))
        except RuntimeError as err:
            if "contains no" not in str(err):
                raise
            o = 0.
        out.count("sectors")
        if o > .1 and c not in listed:
            bad("sector", f"{c} contains the initial state (overlap {o}) and is not calculated")
        if o < 1e-9 and c in listed and choices[2] == [None]:
            bad("sector", f"{c} does not contain the initial state and is calculated")


def judge(p, q, lines, settings, case, history):
    m = module(p)
    two = p["button_id"] == 2
    nsteps, _ = step(p, 0)
    blocks = settings["scriptoptions"]["numBlocks"]
    half = two and p["conserveM"] and (p["m1"] + p["m2"]) % 1
    bad = lambda key, msg: out.violation("half-integer momentum" if half else key, msg, f"{case} | history: {history}")  # noqa
    tot = [x for x in lines if x.startswith(">>TOT")]
    if not q.finishedgracefully or len(tot) != 1 or int(tot[0][5:12]) != nsteps * blocks:
        bad("announced", f"{tot} for {nsteps} steps and {blocks} blocks, end announced: {q.finishedgracefully}")
    idx = p["button_id"] % 3
    got = []
    while not q.dataqueues[idx].empty():
        got.append(q.dataqueues[idx].get())
    if any(not x.empty() for x in q.dataqueues):
        bad("queue", "results for another plot")
    files = {}
    for f in q.basisfiles[idx]:
        b = int(f.rsplit("_", 1)[1].split(".")[0])
        if b in files:
            bad("states:twice", f)
        files[b] = f
    seen = {}
    for st, nb, b, f in got:
        if nb != blocks or not 0 <= b < blocks or not 0 <= st < nsteps:
            bad("position", f"step {st} block {b} of {nb}")
        if (st, b) in seen:
            bad("twice", f"step {st} block {b}")
        seen[st, b] = f
    missing = {(s, b) for s in range(nsteps) for b in files} - set(seen)
    gone = {(s, b) for s, b in missing if two and p["deltaEPair"] >= 0 and no_levels(p, m, s, settings["scriptoptions"]["symmetries_list"][b])}
    out.count("steps without states", len(gone))
    if missing - gone or not set(seen) <= {(s, b) for s in range(nsteps) for b in files}:
        bad("missing", f"delivered {sorted(seen)} of {nsteps} steps and blocks {sorted(files)}")
    totals = [int(x[5:12]) for x in lines if x.startswith(">>OUT")]
    if len(set(totals)) != len(seen) or any(not 1 <= x <= nsteps * blocks for x in totals):
        bad("progress", f"results counted as {totals} of {nsteps * blocks}")
    if len({f for f in seen.values()}) != len(seen):
        bad("shared", f"one file for several results: {sorted(seen.items())}")

    states = {}
    for b, f in files.items():
        a = np.loadtxt(f, ndmin=2)
        if not np.array_equal(a[:, 0], np.arange(len(a))):
            bad("states:numbers", f"{a[:, 0]}")
        states[b] = [tuple(x) for x in a[:, 1:].tolist()]
    first = None
    if two:
        first = reference_pair(p, m, step(p, 0)[1])
        if p["sametrafo"] and not half:
            sectors(p, m, first[0], settings["scriptoptions"]["symmetries_list"], bad)
    for st in sorted({s for s, _ in seen}):
        _, x = step(p, st)
        union, operators = [], {}
        for b in sorted(files):
            if (st, b) not in seen:
                continue
            try:
                with open(seen[st, b], "rb") as f:
                    data = pickle.load(f)
            except (OSError, EOFError, pickle.UnpicklingError, ValueError) as err:
                bad("unreadable", f"step {st} block {b}: {type(err).__name__}: {err}")
                continue
            par = data["params"]
            # the parameters that are shown with the result
            for a in ([1] if len(sides(p)) == 1 else [1, 2]):
                species, states_a = sides(p)[a - 1]
                want = [energy(m, species, s) for s in states_a]
                for k, v in [("_energies", want), ("minEnergy", min(want) - p["deltaESingle"]), ("maxEnergy", max(want) + p["deltaESingle"]), ("species", species)]:
                    g = par.get(f"atom{a}.{k}")
                    if k == "species" and g != v or k != "species" and g is not None and not close(np.atleast_1d(g), np.atleast_1d(v), 1e-6):
                        bad("parameters", f"step {st} block {b}: {k} of atom {a} is {g} instead of {v}")
                for f in F:
                    v = par.get(f"atom{a}.{f}")
                    if v is None or abs(v - x[f]) > 1e-12:
                        bad("parameters", f"step {st} block {b}: {f} is {v} instead of {x[f]}")
            if two and abs(par["pair.distance"] - x["R"]) > 1e-12:
                bad("parameters", f"step {st} block {b}: distance is {par['pair.distance']} instead of {x['R']}")
            e, v = np.array(data["energies"]), data["basis"].toarray()
            # reference energy
            if not two:
                ref = np.mean([energy(m, sp, s) for sp, ss in sides(p) for s in ss])
                (sp, ss), = sides(p)
                t = one(m, p, sp, ss, x)
            else:
                ref = par["pair._energies"]
                ref = ref[0] if ref and len(ref) == 1 else np.nan
                if not np.min(np.abs(np.array(first) - ref)) < 1e-5:
                    bad("reference", f"step {st} block {b}: energies relative to {ref} instead of {first}")
                    continue
                sy = {"momenta": (par.get("pair.momenta") or [None])[0], **{s: par.get("pair." + s) for s in ("inversion", "permutation", "reflection")}}
                want = settings["scriptoptions"]["symmetries_list"][b]
                for s in ("inversion", "permutation", "reflection"):
                    w = {"E": "EVEN", "O": "ODD", None: None}[want[s]]
                    if sy[s] != w:
                        bad("symmetry", f"step {st} block {b}: {s} {sy[s]} instead of {w}")
                        sy[s] = w
                if (sy["momenta"] is None) != (want["pair.momenta"] is None) or (sy["momenta"] is not None and sy["momenta"] != want["pair.momenta"]):
                    bad("symmetry", f"step {st} block {b}: momentum {sy['momenta']} instead of {want['pair.momenta']}")
                    sy["momenta"] = want["pair.momenta"]
                t = pair(p, m, x, ref, sy)
            try:
                h, names, levels = operator(t)
            except RuntimeError as err:
                if "contains no" not in str(err):
                    raise
                h, names, levels = np.zeros((0, 0)), [], np.array([])
            out.eval(f"{case} {st} {b}")
            out.count("levels", len(e))
            # the states of the block, which must be those of the file that was announced for it
            moving = two and any(x["min" + f] != x["max" + f] for f in F for x in [p, *(json.loads(h) for h in history)])
            if not close(e + ref, levels):
                a, c = np.sort(e + ref), np.sort(levels)
                bad("energies", f"step {st} block {b}: {len(a)} levels instead of {len(c)}" if len(a) != len(c) else
                    f"step {st} block {b}: levels off by up to {np.max(np.abs(a - c))} of {len(a)}")
                continue
            union += list(e + ref)
            if v.shape != (len(states[b]), len(e)) or sorted(names) != sorted(states[b]):
                bad("states:scan of fields" if moving else "states", f"step {st} block {b}: {v.shape} coefficients for {len(states[b])} states ({len(names)} expected, "
                    f"e.g. {sorted(set(names) ^ set(states[b]))[:3]}) and {len(e)} energies")
                continue
            pos = {s: i for i, s in enumerate(names)}
            o = [pos[s] for s in states[b]]
            k = v @ np.diag(e + ref) @ v.conj().T
            if len(e) and np.max(np.abs(k - h[np.ix_(o, o)])) > 5e-5:
                bad("states:scan of fields" if moving else "vectors", f"step {st} block {b}: vectors and energies differ from the operator by {np.max(np.abs(k - h[np.ix_(o, o)]))}")
        # what hardly occurs is left out, in fields this depends on the symmetry
        if two and complete(p) and not any(x[f] for f in F) and len(seen) == nsteps * len(files):
            try:
                t = pair(p, m, x, first[0] if len(first) == 1 else par["pair._energies"][0], {})
                all_levels = operator(t)[2]
            except RuntimeError as err:
                if "contains no" not in str(err):
                    raise
                all_levels = []
            out.count("unions")
            if not close(np.array(union), all_levels):
                bad("union", f"step {st}: {len(union)} levels in {blocks} blocks instead of {len(all_levels)}" + (f", off by up to {np.max(np.abs(np.sort(union) - np.sort(all_levels)))}" if len(union) == len(all_levels) else ""))


caches = {k: pi.pireal.MatrixElementCache() for k in (0, 1)}
caches[0].setMethod("WHITTAKER")
caches[1].setMethod("NUMEROV")
N = int(sys.argv[3]) if len(sys.argv) > 3 else pyvh.n(35, 300)
for session in range(N):
    d = os.path.join(base, f"s{session}")
    os.makedirs(d)
    p, history = draw(), []
    for k in range(r.randint(1, 4)):
        num = r.choice([1, 1, 2, 3])
        how = "direct&delete" if num > 1 or r.random() < .6 else r.choice(["direct", "path&delete", "config"])
        case = json.dumps(dict(p, num=num, how=how), sort_keys=True)
        out.case(case)
        if r.random() < .25:
            killed(p, d, how)
            history.append(json.dumps(dict(p, num=1, how=how, killed=True), sort_keys=True))
        try:
            q, lines, settings = run(p, d, num, how, case)
        except (ValueError, RuntimeError) as err:
            s = str(err)
            out.violation("failed", f"{type(err).__name__}: {s}", case)
        except Exception as err:  # noqa
            import traceback
            out.violation(f"error:{type(err).__name__}", traceback.format_exc()[-1500:], case)
        else:
            judge(p, q, lines, settings, case, history)
            out.count("runs")
        history.append(case)
        p = vary(p)
    shutil.rmtree(d)
    for f in glob.glob(tempfile.tempdir + "/*"):
        os.remove(f)
out.done()
shutil.rmtree(base)
