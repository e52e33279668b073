import importlib


def load(pid):
    return importlib.import_module("sim.props." + pid.lower()).PROP()
