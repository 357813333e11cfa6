"""C06 1D states keep their gas and honour every request through any history"""
import numpy as np
from engine import *

GAM = [1.4, 1.3, 1.2, 1.67]
DEF = [1.25, 1.1, 1.5]


# ---- executable reference model: a state is (gamma, rho, u, p)
def TtTs(M, g):
    return 1.0 + 0.5 * (g - 1.0) * M ** 2


def from_M(g, pt, rtt, M):
    t = TtTs(M, g)
    p, rt = pt / t ** (g / (g - 1.0)), rtt / t
    return g, p / rt, M * np.sqrt(g * rt), p


def from_u(g, pt, rtt, u):
    rt = rtt - 0.5 * (g - 1.0) / g * u ** 2
    p = pt * (rt / rtt) ** (g / (g - 1.0))
    return g, p / rt, u, p


def from_p(g, pt, rtt, p):
    rt = rtt * (p / pt) ** ((g - 1.0) / g)
    return g, p / rt, np.sqrt((rtt - rt) * 2.0 * g / (g - 1.0)), p


def obs(m):
    g, rho, u, p = m
    a = np.sqrt(g * p / rho)
    M = u / a
    return {"rho": rho, "u": u, "p": p, "asound": a, "Mach": M, "rTtot": p / rho * TtTs(M, g), "Ptot": p * TtTs(M, g) ** (g / (g - 1.0)),
            "mf": rho * u, "lr": (u - a, u + a)}


def wave(m):
    """velocity and density changes through the simple waves which lead to pressure P, and the mirrored state"""
    g, rho, u, p = m
    a, P, k = np.sqrt(g * p / rho), 0.9, (g - 1.0) / (g + 1.0)
    return {"du_exp": 2.0 * a / (g - 1.0) * ((P / p) ** (0.5 * (g - 1.0) / g) - 1.0),
            "du_sh": (P - p) * np.sqrt(2.0 / rho / ((g + 1.0) * P + (g - 1.0) * p)),
            "rho_sh": rho * (P / p + k) / (1.0 + k * P / p), "rho_is": rho * (P / p) ** (1.0 / g)}


def full(m, got):
    d = obs(m)
    if isinstance(got, dict) and "wave" in got:
        d["wave"] = wave(m)
    return canon(d)


def jump(m, us=None):
    """Rankine-Hugoniot jump, for a shock at rest or of velocity us"""
    g, rho, u, p = m
    w = u - (us or 0.0)
    M2 = w * w * rho / (g * p)
    k = (g + 1.0) * M2 / (2.0 + (g - 1.0) * M2)
    return g, rho * k, (us or 0.0) + w / k, p * (1.0 + 2.0 * g / (g + 1.0) * (M2 - 1.0))


def shockable(g, rho, u, p, us=None):
    """the jump relations give a physical state"""
    w = np.asarray(u) - (us or 0.0)
    pr = 1.0 + 2.0 * g / (g + 1.0) * (w * w * rho / (g * p) - 1.0)
    return bool((np.abs(w) > 1e-3).all() and (pr > 0.05).all())


def iso(m, M):
    o = obs(m)
    return from_M(m[0], o["Ptot"], o["rTtot"], M)


def apply(st, op):
    """successor of the model for a request that takes effect; st: {name: model}"""
    k = op[0]
    st = dict(st)
    if k in ("M", "u", "p"):
        s = st[op[1]]
        st[op[1]] = {"M": from_M, "u": from_u, "p": from_p}[k](s[0], *[arr(x) for x in op[2:5]])
    elif k == "copy":
        st[op[2]] = tuple(np.array(x) if isinstance(x, np.ndarray) else x for x in st[op[1]])
    elif k == "idx":
        st[op[2]] = tuple(x[op[3]] if np.ndim(x) else x for x in st[op[1]])
    elif k == "RH":
        st[op[2]] = jump(st[op[1]])
    elif k == "ush":
        st[op[2]] = jump(st[op[1]], op[3])
    elif k == "iso":
        st[op[2]] = iso(st[op[1]], op[3])
    elif k == "sym":
        g, r, u, p = st[op[1]]
        st[op[2]] = (g, r, -u, p)
    elif k == "poke":
        g, r, u, p = st[op[1]]
        d = {"rho": r, "u": u, "p": p}
        x = d[op[2]]
        if np.ndim(x):
            x = np.array(x)
            x[op[3]] = op[4]
        else:
            x = op[4]
        d[op[2]] = x
        st[op[1]] = (g, d["rho"], d["u"], d["p"])
    return st


ARRS = {"g3": [1.4, 1.3, 1.2], "M3": [0.4, 0.9, 1.6], "u3": [0.2, 0.5, 0.8], "p3": [0.5, 0.8, 0.9], "pt3": [1.0, 1.2, 1.5], "rho3": [1.0, 1.2, 1.5], "M2": [0.3, 0.6], "Mn3": [-1.4, 0.0, 0.7], "un3": [-0.6, 0.1, 0.7]}


def arr(x):
    return np.array(ARRS[x]) if isinstance(x, str) and x in ARRS else x


BAD = {"bad:str": "x", "bad:none": None, "bad:obj": object()}


class W(World):
    def setup(self, cfg):
        import aerokit.aero.model1D as m1
        import aerokit.aero.unsteady1D as uq
        self.q, self.held = {}, []
        self.hold = not any(o["op"][0] == "poke" for t in self.scen["tasks"] for o in t)
        for k, (kind, g, rho, u, p) in cfg["states"].items():
            self.q[k] = (uq.unsteady_state if kind == "uq" else m1.state)(arr(rho), arr(u), arr(p), arr(g))
            self.keep(k)

    def arg(self, x):
        return BAD[x] if isinstance(x, str) and x in BAD else arr(x)

    def do(self, task, op):
        k = op[0]
        q = self.q[op[1]] if k != "gas" and op[1] in self.q else None
        if k == "gas":
            import aerokit.common.defaultgas as d
            return d.set_gamma(op[1])
        if q is None:
            return "absent"
        if k in ("M", "u", "p"):
            a = [self.arg(x) for x in op[2:5]]
            return getattr(q, {"M": "compute_from_pt_rtt_M", "u": "compute_from_pt_rtt_u", "p": "compute_from_pt_rtt_p"}[k])(*a)
        if k == "copy":
            n = q.copy()
        elif k == "idx":
            n = q[op[3]]
        elif k in ("RH", "ush") and not shockable(arr(op[4]), q.rho, q.u, q.p, op[3]):
            n = None
        elif k == "RH":
            n = q.state_RH()
        elif k == "ush":
            n = q._rankinehugoniot_from_ushock(op[3]) if hasattr(q, "_rankinehugoniot_from_ushock") else None
        elif k == "iso":
            n = q.state_isentropic_Mach(self.arg(op[3]))
        elif k == "sym":
            n = q.copysymmetric()
        elif k == "poke":
            x = getattr(q, op[2])
            if isinstance(x, np.ndarray) and x.ndim:
                x[op[3]] = op[4]
            else:
                setattr(q, op[2], op[4])
            return None
        elif k == "hold":
            return self.keep(op[1])
        elif k == "get":
            return self.look(q)
        if n is None:
            return "absent"
        self.q[op[2]] = n
        return self.look(n) if op[-1] == "look" else None

    def keep(self, n):
        """what a caller keeps of a state: its arrays now"""
        if self.hold:
            for a in ("rho", "u", "p"):
                x = getattr(self.q[n], a)
                if isinstance(x, np.ndarray) and x.ndim:
                    self.held.append((n + "." + a, x, x.copy()))

    def look(self, q):
        d = {"rho": q.rho, "u": q.u, "p": q.p, "asound": q.asound(), "Mach": q.Mach(), "rTtot": q.rTtot(), "Ptot": q.Ptot(),
             "mf": q.massflow(), "lr": (q.left_acoustic(), q.right_acoustic())}
        if hasattr(q, "delta_u_expansion"):
            P = 0.9
            d["wave"] = {"du_exp": q.delta_u_expansion(P), "du_sh": q.delta_u_shock(P), "rho_sh": q.rho_through_shock(P), "rho_is": q.rho_through_isentropic(P)}
        return d

    def final(self):
        out = {"held": sorted({n for n, x, c in self.held if not np.array_equal(x, c, equal_nan=True)})}
        for k, q in self.q.items():
            try:
                out[k] = canon(self.look(q))
            except Exception as e:      # a state which can not be asked any more
                out[k] = canon("!" + type(e).__name__)
        return out


class C06(Prop):
    id = "C06"
    preload = ("aerokit.aero.unsteady1D",)
    World = W
    runs = {"quick": 4000, "thorough": 70000}
    variants = 2
    modes = (("fault", 4), ("switch", 2), ("both", 2))
    fault_kinds = ("kint", "mem")
    snapshot_globals = False

    def gen(self, rng):
        nt = rng.choice([1, 1, 2])
        states, tasks = {}, []
        for t in range(nt):
            names = []
            for i in range(rng.randint(1, 2)):
                ar = rng.random() < .4
                n = "q%d%d" % (t, i)
                g = "g3" if ar and rng.random() < .4 else rng.choice(GAM)
                states[n] = [rng.choice(["m1", "uq"]), g, "rho3" if ar else rng.choice([1.0, 1.4]), rng.choice(["u3", "un3"]) if ar else rng.choice([0.0, 0.5, 2.5, -0.8]),
                             "p3" if ar else rng.choice([1.0, 0.4])]
                names.append([n, ar, states[n][0], g])
            ops = []
            for j in range(rng.randint(3, 9)):
                n, ar, kind, gam = rng.choice(names)
                r = rng.random()
                new = "n%d.%d" % (t, j)
                if r < .35:
                    k = rng.choice("Mup")
                    big = ar and rng.random() < .4
                    third = {"M": (rng.choice(["M3", "Mn3"]), [0.0, 0.5, 1.3, -0.6]), "u": (rng.choice(["u3", "un3"]), [0.0, 0.3, 0.7, -0.5]), "p": ("p3", [0.5, 0.8])}[k]
                    o = [k, n, "pt3" if big else rng.choice([1.0, 1.5]), rng.choice([1.0, 1.2]), third[0] if ar else rng.choice(third[1])]
                    if rng.random() < .15:
                        o[rng.choice([2, 3, 4])] = rng.choice(list(BAD))
                    if ar and o[2] != "pt3" and not isinstance(o[4], str):
                        o[2] = "pt3"
                elif r < .5:
                    o = ["copy", n, new]
                    names.append([new, ar, kind, gam])
                elif r < .58 and ar:
                    i = rng.choice([0, 1, 2, -1, -2, -3])
                    o = ["idx", n, new, i]
                    names.append([new, False, "m1", ARRS[gam][i] if gam in ARRS else gam])
                elif r < .64:
                    o = ["RH", n, new, None, gam]
                    names.append([new, ar, "m1", gam])
                elif r < .7:
                    o = ["iso", n, new, rng.choice([0.5, 0.9, 1.5] + (["bad:str"] if rng.random() < .3 else []))]
                    if not isinstance(o[3], str):
                        names.append([new, ar, "m1", gam])
                elif r < .74 and kind == "uq":
                    o = ["sym", n, new]
                    names.append([new, ar, "uq", gam])
                elif r < .78 and kind == "uq":
                    o = ["ush", n, new, rng.choice([-2.0, 3.0]), gam]
                    names.append([new, ar, "uq", gam])
                elif r < .86:
                    o = ["poke", n, rng.choice(["rho", "u", "p"]), rng.randrange(3), rng.choice([0.6, 0.9, 1.1])]
                elif r < .9:
                    o = ["gas", rng.choice(DEF)]
                elif r < .94:
                    o = ["hold", n]
                else:
                    o = ["get", n]
                ops.append(o)
                if o[0] not in ("gas", "get", "hold") and rng.random() < .6:
                    ops.append(["get", o[1] if o[0] in "Mup" or o[0] == "poke" else rng.choice([o[1], new])])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {"states": states}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        st0 = {k: (arr(g), arr(rho), arr(u), arr(p)) for k, (kind, g, rho, u, p) in scen["setup"]["states"].items()}
        alive = dict(st0)
        for ti, t in enumerate(scen["tasks"]):
            # states are private to their task: follow the set of possible models (several only after a fault)
            cand = [{k: m for k, m in st0.items() if k.startswith("q%d" % ti)}]
            for o in t:
                op, i = o["op"], o["id"]
                r = rec["out"].get(i)
                if r is None or op[0] in ("gas", "hold"):
                    continue
                if op[1] not in cand[0]:
                    if not (r[0] == "ok" and r[1] == "absent"):
                        v.append(("exists", "%s: %s on a state which could not be made" % (op, outcome_str(r))))
                    continue
                bad = any(isinstance(x, str) and x in BAD for x in op)
                with np.errstate(all="ignore"):
                    if op[0] == "get":
                        if r[0] == "exc":
                            if i not in fired:
                                v.append(("get", "%s %s" % (op, outcome_str(r))))
                            continue
                        ok = [c for c in cand if same(r[1], full(c[op[1]], r[1]))]
                        if not ok:
                            v.append(("state:" + self.last(t, o, op[1]), "%s is %s, expected %s" % (op[1], brief(r[1], 300), brief(canon(obs(cand[0][op[1]])), 300))))
                            ok = cand
                        cand = ok
                        continue
                    if r[0] == "ok":
                        if op[0] in ("RH", "ush") and same(r[1], "absent"):
                            ok = [c for c in cand if not shockable(c[op[1]][0], *c[op[1]][1:], op[3])]
                            if not ok and not (op[0] == "ush"):
                                v.append(("exists", "%s refused although physical" % op))
                            cand = ok or cand
                            continue
                        if bad:
                            break           # the library accepted a nonsense argument: no opinion
                        if op[0] in ("RH", "ush"):
                            cand = [c for c in cand if shockable(c[op[1]][0], *c[op[1]][1:], op[3])]
                            if not cand:
                                v.append(("state:jump", "%s done although the state should not allow it" % op))
                                break
                        cand = [apply(c, op) for c in cand]
                    elif i in fired:
                        if op[0] in ("M", "u", "p", "poke") and not bad:
                            cand = cand + [apply(c, op) for c in cand]
                    elif not bad:
                        v.append(("raises:" + op[0], "%s %s" % (op, outcome_str(r))))
            else:
                with np.errstate(all="ignore"):
                    for n in cand[0]:
                        got = rec["final"].get(n)
                        if got is None or not any(same(got, full(c[n], got)) for c in cand):
                            v.append(("final:" + self.last(t, None, n), "finally %s is %s, expected %s" % (n, brief(got, 300), brief(canon(obs(cand[0][n])), 300))))
                continue
        if rec["final"]["held"]:
            v.append(("held", "arrays of a state which the caller kept (or gave) changed afterwards: %s" % (rec["final"]["held"],)))
        return v

    def last(self, t, upto, name):
        k = "made"
        for o in t:
            if o is upto:
                break
            if name in o["op"][1:3]:
                k = o["op"][0]
        return k


PROP = C06()
