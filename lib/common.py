"""Access to the code under test, and the state reset between cases."""
import io, itertools, os, sys, contextlib
import warnings
warnings.simplefilter("ignore")
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.rcParams["figure.max_open_warning"] = 0

from lib.harness import Violation, HarnessError, fail, require, REPO

import gsp
import gsp.io
import gsp.io.json, gsp.io.ansi, gsp.io.command, gsp.io.convert
import gsp.core, gsp.visual, gsp.transform
import gsp_matplotlib
import gsp_matplotlib.core, gsp_matplotlib.visual
from gsp_matplotlib import glm
from gsp.object import Object, OID
import logging
logging.getLogger().setLevel(logging.CRITICAL)
try:
    gsp.log.setLevel("CRITICAL")
except Exception:
    pass


def assert_repo():
    for m in (gsp, gsp_matplotlib):
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(REPO) + "/"):
            raise HarnessError(f"{m.__name__} imported from {f}, not from {REPO}")


_serial = itertools.count()
_converters0 = dict(gsp.io.converters)
_tracker0 = glm.ndarray.tracked.__tracker_class__


def reset():
    """A clean session: recording on, an empty fresh active queue, no objects."""

    Object.objects = {}
    Object.record = True
    gsp.io.record(True)
    q = gsp.io.queue("verif-case")
    gsp.io.CommandQueue.active = q
    q.readonly = False
    q.empty()
    restore_converters()
    glm.ndarray.tracked.__tracker_class__ = _tracker0
    if plt.get_fignums():
        plt.close("all")


def restore_converters():
    if gsp.io.converters != _converters0:
        gsp.io.converters.clear()
        gsp.io.converters.update(_converters0)


def cleanup():
    if plt.get_fignums():
        plt.close("all")


def active():
    return gsp.io.queue("active")


@contextlib.contextmanager
def untracked():
    """No tracker: arrays created here do not create GSP buffers."""

    saved = glm.ndarray.tracked.__tracker_class__
    glm.ndarray.tracked.__tracker_class__ = None
    try:
        yield
    finally:
        glm.ndarray.tracked.__tracker_class__ = saved


@contextlib.contextmanager
def not_recording():
    q = active()
    saved = q.readonly
    q.readonly = True
    try:
        yield
    finally:
        q.readonly = saved


def plain(x):
    """A plain, independent ndarray with the values of x."""
    return np.array(np.asarray(x), copy=True, subok=False)


def same(got, want, what, rtol=1e-6, atol=1e-6, **details):
    """Array comparison that treats a wrong shape / non-numeric as disagreement."""

    try:
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
    except Exception as exc:
        fail(f"{what}: result is not numeric ({exc})", got=got, want=want, **details)
    if g.shape != w.shape:
        fail(f"{what}: wrong shape", got=g.shape, want=w.shape, value=g, **details)
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        fail(f"{what}: wrong value", got=g, want=w, **details)


def raises(exc_types, func, what):
    try:
        value = func()
    except exc_types:
        return
    except Exception as exc:
        fail(f"{what}: raised {type(exc).__name__} ({exc}) instead of "
             f"{getattr(exc_types, '__name__', exc_types)}")
    fail(f"{what}: did not raise", returned=value)
