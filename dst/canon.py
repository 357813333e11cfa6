"""canonical, picklable form of results, and tolerant comparison"""
import numpy as np

PRIM = (str, bytes, bool, type(None))


def canon(x, depth=0):
    if depth > 8:
        return "<deep>"
    if isinstance(x, PRIM):
        return x
    if isinstance(x, (int, float, complex, np.number, np.bool_)):
        return np.asarray(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", x.shape, tuple(canon(v, depth + 1) for v in x.ravel().tolist()))
        return np.array(x, copy=True)
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return {str(k): canon(v, depth + 1) for k, v in x.items()}
    if hasattr(x, "rho") and hasattr(x, "p") and hasattr(x, "_gamma"):
        return state_obs(x, depth)
    if callable(x):
        return "<callable>"
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict):
        return {"__class__": type(x).__name__, **{k: canon(v, depth + 1) for k, v in d.items() if not k.startswith("__")}}
    return repr(type(x))


def state_obs(q, depth=0):
    """what a user can see of a 1D state, gas included, through its public methods"""
    out = {"__class__": type(q).__name__}
    with np.errstate(all="ignore"):
        for k in ("rho", "u", "p"):
            out[k] = canon(getattr(q, k, None), depth + 1)
        for m in ("asound", "Mach", "Ptot", "rTtot"):
            try:
                out[m] = canon(getattr(q, m)(), depth + 1)
            except Exception as e:
                out[m] = "!" + type(e).__name__
    return out


def same(a, b, rtol=1e-9, atol=1e-10):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.size == 1 and b.size == 1:
            a, b = a.reshape(()), b.reshape(())
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
            if a.size == 0:
                return True
            with np.errstate(all="ignore"):
                ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
                if ok.all():
                    return True
                # whole-array scale (differentiation matrices mix magnitudes)
                if np.isfinite(a).all() and np.isfinite(b).all():
                    return bool(np.abs(a - b).max() <= 1e-11 * np.abs(a).max())
                return False
        return bool(np.array_equal(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    return type(a) == type(b) and a == b


def same_outcome(a, b, rtol=1e-9, atol=1e-10):
    """outcomes: ("ok", value, n) / ("exc", (type, msg, isException), n)"""
    if a[0] != b[0]:
        return False
    if a[0] == "ok":
        return same(a[1], b[1], rtol, atol)
    return a[1][0] == b[1][0]


def brief(x, n=160):
    def r(v):
        if isinstance(v, np.ndarray):
            if v.size <= 4:
                return repr(v.tolist())
            return "array%s[%s..]" % (v.shape, ",".join("%.6g" % t if t.dtype.kind == "f" else str(t) for t in v.ravel()[:3]))
        if isinstance(v, tuple):
            return "(" + ", ".join(r(t) for t in v) + ")"
        if isinstance(v, dict):
            return "{" + ", ".join("%s:%s" % (k, r(t)) for k, t in v.items()) + "}"
        return repr(v)
    s = r(x)
    return s if len(s) <= n else s[:n] + "..."


def outcome_str(o):
    if o is None:
        return "nothing"
    return "returns " + brief(o[1]) if o[0] == "ok" else "raises %s(%s)" % (o[1][0], o[1][1][:80])
