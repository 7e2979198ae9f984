"""Helpers shared by the harnesses (run transformed and untransformed)."""
import warnings

ALNUM = "abcxyz0189"
COMM = "ab-0 [](:/_.)"


def quiet():
    warnings.simplefilter("ignore")


def ftrace(path, **kw):
    """FTrace with the on-disk cache switched off."""
    import trappy
    quiet()
    old = trappy.FTrace.disable_cache
    trappy.FTrace.disable_cache = True
    try:
        return trappy.FTrace(path, **kw)
    finally:
        trappy.FTrace.disable_cache = old


def line(comm="task", pid="12", cpu="000", ts="1.000000", event="myev",
         data="a=1", flags="", tgid=""):
    return (" " * 3 + comm + "-" + pid + tgid + " [" + cpu + "] " + flags +
            ts + ": " + event + ": " + data)


def col(frame, name):
    return frame[name].tolist()


def index(frame):
    return frame.index.tolist()
