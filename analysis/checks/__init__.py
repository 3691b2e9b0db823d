import importlib, os

REG = {}


def prop(pid):
    def deco(f):
        REG[pid] = f
        return f
    return deco


def load():
    d = os.path.dirname(__file__)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("checks." + f[:-3])


def find(pid):
    load()
    return REG[pid]
