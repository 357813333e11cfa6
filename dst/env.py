"""process-wide state a library call must leave alone, read through public interfaces"""
import sys, os, random, hashlib, signal, gc, warnings, decimal, locale, threading
import numpy as np


def _h(b):
    return hashlib.blake2b(b, digest_size=6).hexdigest()


def snapshot(gas=True, dico=True):
    s = {}
    s["np.printoptions"] = repr(sorted((k, repr(v) if not callable(v) else "fn") for k, v in np.get_printoptions().items()))
    s["np.errstate"] = repr(sorted(np.geterr().items()))
    s["np.errcall"] = repr(np.geterrcall())
    s["warnings.filters"] = _h(repr([(a, str(b), c.__name__, str(d), e) for a, b, c, d, e in warnings.filters]).encode())
    s["sys.stdout"] = id(sys.stdout)
    s["sys.stderr"] = id(sys.stderr)
    s["sys.stdin"] = id(sys.stdin)
    s["cwd"] = os.getcwd()
    s["environ"] = _h(repr(sorted(os.environ.items())).encode())
    s["sys.path"] = _h(repr(sys.path).encode())
    s["recursionlimit"] = sys.getrecursionlimit()
    s["switchinterval"] = sys.getswitchinterval()
    s["random"] = _h(repr(random.getstate()).encode())
    s["np.random"] = _h(np.random.get_state()[1].tobytes() + repr(np.random.get_state()[2:]).encode())
    s["sigint"] = repr(signal.getsignal(signal.SIGINT))
    s["gc"] = gc.isenabled()
    s["decimal"] = repr(decimal.getcontext())
    s["locale"] = repr(locale.setlocale(locale.LC_ALL))
    s["excepthook"] = id(sys.excepthook)
    s["trace"] = repr((sys.gettrace(), sys.getprofile()))
    s["bufsize"] = np.getbufsize()
    if "matplotlib" in sys.modules:
        import matplotlib
        s["rcParams"] = _h(repr(sorted((k, repr(v)) for k, v in dict(matplotlib.rcParams).items())).encode())
    m = sys.modules.get("aerokit.common.defaultgas")
    if gas and m is not None:
        s["default gas"] = repr((m.gamma(), m.r_ideal()))
    m = sys.modules.get("aerokit.common.dicovar")
    if dico and m is not None:
        dv = m.dicoVar
        s["dicovar"] = repr(sorted((k, dv.get(k)) for k in dv.keys()))
    for name in sorted(sys.modules):
        if name.startswith("aerokit.") and sys.modules[name] is not None:
            d = vars(sys.modules[name])
            c = {k: v for k, v in list(d.items()) if not k.startswith("_") and type(v) in (float, str)}
            if c:
                s["constants of " + name] = repr(sorted(c.items()))
    return s


def local():
    """settings that belong to the calling thread (numpy keeps its own in context variables)"""
    return {"np.errstate": tuple(sorted(np.geterr().items())), "np.errcall": repr(np.geterrcall()), "np.bufsize": np.getbufsize(),
            "np.printoptions": repr(sorted((k, v if not callable(v) else "fn") for k, v in np.get_printoptions().items() if k != "formatter"))
            + repr(sorted((np.get_printoptions()["formatter"] or {}))),
            "decimal": repr(decimal.getcontext().prec), "trace": repr((sys.gettrace(), sys.getprofile()))}


def saved_slot():
    """value of the save/restore slot (only at the end of a run: probing it overwrites the current gas)"""
    import aerokit.common.defaultgas as g
    cur = (g.gamma(), g.r_ideal())
    try:
        g.restore_default()
        v = (g.gamma(), g.r_ideal())
    except Exception as e:
        v = type(e).__name__
    g.set_gamma(cur[0])
    g.set_r_ideal(cur[1])
    return v


def diff(a, b):
    """names (constants of modules imported meanwhile are no change)"""
    return sorted(k for k in a if k in b and a[k] != b[k])
