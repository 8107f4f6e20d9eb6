"""Which component decides which property."""
import importlib

COMPONENTS = ["comp_gop", "comp_codec", "comp_flv", "comp_amf", "comp_ts", "comp_sip", "comp_pipe", "comp_iso", "comp_keep"]


def components():
    return [importlib.import_module(c) for c in COMPONENTS]


def components_of(pid):
    """The components that decide pid, the main one first."""
    cs = [c for c in components() if pid in c.PIDS] + [c for c in components() if pid in getattr(c, "ALSO", ())]
    if not cs:
        raise SystemExit("unknown property " + pid)
    return cs


def component_of(pid):
    return components_of(pid)[0]


def named(name):
    return next(c for c in components() if c.__name__ == name)
