import importlib
IDS = ["C%02d" % i for i in range(1, 20)]


def get(pid):
    m = importlib.import_module("props." + pid.lower())
    return m.PROP
