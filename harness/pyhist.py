"""Judging runs of the backend and comparing what they delivered."""
import os

import pyback as pb
from pyvh import n, out


def one_states(c, which):
    """Number of one-atom states, an estimate of the effort only"""
    s = set()
    for i in which:
        N, L, J, M = (c[k + i] for k in "nljm")
        for nn in range(N - c["deltaNSingle"], N + c["deltaNSingle"] + 1):
            for l in range(max(0, L - c["deltaLSingle"]), min(nn - 1, L + c["deltaLSingle"]) + 1):
                for j in ([.5] if l == 0 else [l - .5, l + .5]):
                    if c["deltaJSingle"] >= 0 and abs(j - J) > c["deltaJSingle"]:
                        continue
                    for k in range(int(2 * j) + 1):
                        m = k - j
                        if c["deltaMSingle"] >= 0 and abs(m - M) > c["deltaMSingle"]:
                            continue
                        s.add((nn, l, j, m))
    return s


def effort(c):
    same = c["samebasis"] == "true"
    a, b = (one_states(c, "12"),) * 2 if same else (one_states(c, "1"), one_states(c, "2"))
    if c["deltaMPair"] >= 0:
        a = {x for x in a if any(abs(x[3] - c["m" + i]) <= c["deltaMPair"] for i in "12")}
        b = {x for x in b if any(abs(x[3] - c["m" + i]) <= c["deltaMPair"] for i in "12")}
    return len(a) * len(b) if "minR" in c else len(a)


def closed(c):
    """The reflection needs a basis that contains both signs of all m"""
    return c["deltaMSingle"] == -1 and c["deltaMPair"] == -1


def make(r, most=None, pair=None):
    while True:
        c, typ = pb.random_config(r, pair)
        if effort(c) > (most or n(600, 1000)) or (not closed(c) and (c["refE"] == "true" or c["refO"] == "true")):
            continue
        return c, typ


def indistinct(c):
    """Neighbouring steps may have the same label, share one file, and the first one to finish determines its contents"""
    return any(0 < abs(pb.num(c["max" + f]) - pb.num(c["min" + f])) < 1e-9 * max(abs(pb.num(c["max" + f])), abs(pb.num(c["min" + f]))) for f in pb.FIELDS)


class Broken(Exception):
    pass


def one_steps(c):
    return 1 if all(pb.num(c["min" + f]) == pb.num(c["max" + f]) for f in pb.FIELDS) else c["steps"]


def numeric_equal(x, y):
    try:
        return float(x) == float(y)
    except ValueError:
        return str(x) == str(y)


def close(x, y, scale):
    return abs(x - y) <= 1e-12 * max(abs(scale), 1e-300)


def examine(c, typ, res, what, d, group="history"):
    """Judges the announcements of a run against the configuration; returns what it delivered."""
    def bad(key, msg):
        out.violation(f"{group}:{key}", f"{what}: {msg}", case)
        raise Broken
    case = f"{typ} {pb.text(c)}"
    try:
        return delivered_by(c, typ, res, d, bad)
    except (KeyError, ValueError, TypeError, IndexError, AttributeError, OSError, pb.Bad) as x:
        bad("files", f"what was announced or delivered cannot be understood: {x!r}")


def delivered_by(c, typ, res, d, bad):
    if res.rc != 0:
        bad("exit", f"exit status {res.rc}: {res.stderr[-300:]} {res.stdout[-200:]}")
    if res.bad:
        bad("protocol", f"not understood: {res.bad[:3]}")
    if not res.ended:
        bad("protocol", "no end announced")
    same, pairs = c["samebasis"] == "true", "minR" in c
    types = ([3] if same else [0, 1]) + ([2] if pairs else [])
    if [s["typ"] for s in res.sections] != types:
        bad("protocol", f"parts {[s['typ'] for s in res.sections]}, should be {types}")
    s1 = one_steps(c)
    vague = indistinct(c)
    delivered = {}
    for s in res.sections:
        pair = s["typ"] == 2
        if pair and s["tot"] == 0 and not s["outs"] and c["sametrafo"] == "true" and (
                all(c[q + "1"] == c[q + "2"] for q in "nljm") or ("true" in (c["invE"], c["invO"]) and "true" in (c["perE"], c["perO"]))):
            continue  # none of the requested blocks contains the initial state
        if pair and s["tot"] == 0 and not s["outs"] and c["conserveM"] == "true" and not pb.states(s["sta"]):
            continue  # no states and therefore no magnetic quantum numbers
        blocks = {o[2] for o in s["outs"]}
        if len(blocks) != 1:
            bad("protocol", f"numbers of blocks {blocks}")
        nb = blocks.pop()
        steps = (1 if s1 == 1 and pb.num(c["minR"]) == pb.num(c["maxR"]) else c["steps"]) if pair else s1
        if s["tot"] != steps * nb:
            bad("steps", f"{s['tot']} steps announced for {steps} positions and {nb} blocks")
        if sorted(o[0] for o in s["outs"]) != list(range(1, steps * nb + 1)):
            bad("steps", f"part {s['typ']}: delivered {sorted(o[0] for o in s['outs'])} of {steps * nb}")
        states = pb.states(s["sta"])
        if len({x[1:] for x in states}) != len(states) or [x[0] for x in states] != list(range(len(states))):
            bad("states", f"part {s['typ']}: list of states")
        order = sorted(range(len(states)), key=lambda i: states[i][1:])
        names = [states[i][1:] for i in order]
        dims = []
        labels = set()
        for (number, step, _, block, path) in s["outs"]:
            if number - 1 != step * nb + block:
                bad("steps", f"number {number} for step {step} block {block}")
            if not os.path.abspath(path).startswith(os.path.abspath(d) + "/"):
                bad("files", f"{path} is not below {d}")
            try:
                e, v, fe, fv = pb.read_mat(path + ".mat")
                js = pb.json.load(open(path + ".json"))
            except (OSError, ValueError, pb.Bad) as x:
                bad("files", f"step {step}: {x}")
            if ((fe | fv) & 2 != 0) != (typ == "complex"):
                bad("files", f"step {step}: data of the wrong type")
            if e.shape[0] != e.shape[1] or v.shape[1] != e.shape[0] or v.shape[0] != len(states):
                bad("files", f"step {step}: energies {e.shape}, vectors {v.shape}, {len(states)} states")
            if pb.offdiagonal(e):
                bad("files", f"step {step}: energies not diagonal")
            x, y = pb.expected_position(c, step if s1 > 1 else 0, s1)
            for f in pb.FIELDS:
                if not close(float(js[f]), x[f], max(abs(pb.num(c["min" + f])), abs(pb.num(c["max" + f])))):
                    bad("parameters", f"step {step}: {f} = {js[f]}, should be {x[f]}")
            if pair:
                y = step / (steps - 1.) if steps > 1 else 0.
                R = pb.num(c["minR"]) + y * (pb.num(c["maxR"]) - pb.num(c["minR"]))
                if not close(float(js["R"]), R, R):
                    bad("parameters", f"step {step}: R = {js['R']}, should be {R}")
                for k in ["deltaEPair", "exponent"]:
                    if float(js[k]) != float(c[k]):
                        bad("parameters", f"{k} = {js[k]}")
                lab = tuple(js[k] for k in ["inversion", "permutation", "reflection", "rotation"])
                if (step, lab) in labels:
                    bad("parameters", f"step {step}: two blocks with symmetry {lab}")
                labels.add((step, lab))
                for k, l in (("inv", lab[0]), ("per", lab[1]), ("ref", lab[2])):
                    allowed = [z for q, z in (("E", "1"), ("O", "-1")) if c[k + q] == "true"] or [""]
                    if l not in allowed:
                        bad("parameters", f"symmetry {k} {l!r} was not asked for")
                if (lab[3] != "") != (c["conserveM"] == "true"):
                    bad("parameters", f"rotation {lab[3]!r}")
            else:
                lab = ()
            atom = "2" if s["typ"] == 1 else "1"
            for k, l in [("species1", "species" + atom), ("diamagnetism",) * 2, ("deltaESingle",) * 2, ("deltaNSingle",) * 2, ("missingCalc",) * 2] + \
                    ([] if same else [(q + "1", q + atom) for q in "nljm"]):
                if not numeric_equal(js[k], c[l]):
                    bad("parameters", f"{k} = {js[k]}, should be {c[l]}")
            if pair and not same and not all(numeric_equal(js[q + "2"], c[q + "2"]) for q in ["species", "n", "l", "j", "m"]):
                bad("parameters", "second atom")
            key = (s["typ"], step, lab)
            dims.append(e.shape[0])
            ev, op, pr = pb.operators(e, v)
            # The vectors are pruned, so that the operators are reproducible only if the energies are calculated from identical numbers
            delivered[key] = (ev, None, None, names) if vague else (ev, op.tocsc()[order][:, order], pr.tocsc()[order][:, order], names)
        if sorted(s["dims"]) != sorted(dims):
            bad("protocol", f"sizes announced {sorted(s['dims'])[:6]}, delivered {sorted(dims)[:6]}")
        if not pair and s["bas"] != len(states):
            bad("protocol", f"{s['bas']} states announced, {len(states)} delivered")
        out.count("files judged", len(s["outs"]))
    return delivered


def compare(x, y, case, key, what, tol=1e-10, only=None, group="history", vague=0.):
    """Compares two deliveries. vague: what the pruning of the vectors may change if the numbers are not identical"""
    if only is None and set(x) != set(y):
        out.violation(f"{group}:{key}:steps", f"{what}: {sorted(set(x) ^ set(y), key=str)[:4]} delivered in only one of the two", case)
        raise Broken
    for k in (x if only is None else only):
        a, b = x[k], y[k]
        if a[3] != b[3]:
            out.violation(f"{group}:{key}:states", f"{what}: {k}: {len(a[3])} and {len(b[3])} states", case)
            raise Broken
        if len(a[0]) != len(b[0]):
            out.violation(f"{group}:{key}:energies", f"{what}: {k}: {len(a[0])} and {len(b[0])} energies", case)
            raise Broken
        if not len(a[0]):
            continue
        scale = max(abs(a[0]).max(), 1.)
        d = abs(a[0] - b[0]).max()
        if not d <= tol * scale:
            out.violation(f"{group}:{key}:energies", f"{what}: {k}: energies differ by {d:.3g}", case)
            raise Broken
        if a[1] is None or b[1] is None:
            out.count("only energies compared")
            continue
        d = pb.maxdiff(a[1], b[1])
        if not d <= max(10 * tol, vague) * scale:
            out.violation(f"{group}:{key}:states", f"{what}: {k}: Hamiltonians differ by {d:.3g}", case)
            raise Broken
        d = pb.maxdiff(a[2], b[2])
        if not d <= max(1e3 * tol, vague):
            out.violation(f"{group}:{key}:states", f"{what}: {k}: projectors on the basis differ by {d:.3g}", case)
            raise Broken
        out.count("results compared")


