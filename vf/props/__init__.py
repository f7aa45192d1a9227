import importlib


def load(pid):
    return importlib.import_module("vf.props." + pid.lower()).PROP
