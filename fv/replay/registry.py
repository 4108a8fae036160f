from . import p_qg, p_api, p_basic


def lookup(pid):
    for mod in (p_qg, p_api, p_basic):
        if hasattr(mod, pid):
            return getattr(mod, pid)
    raise KeyError(pid)
