"""Fault seam for the solver: scipy.optimize.curve_fit, wrapped before the
package imports it.  Which fit fails is decided from the data being fitted
(a content key), never from a call count, so the decision does not depend on
worker order or process grid."""
import collections

from . import pool

SELECT = None            # callable(xdata, ydata) -> exception instance or None
FIRED = collections.Counter()


class HarnessError(Exception):
    """The simulation itself is wrong; never a violation."""


def install():
    import scipy.optimize
    real = scipy.optimize.curve_fit

    def curve_fit(f, xdata, ydata, *a, **k):
        if SELECT is not None:
            exc = SELECT(xdata, ydata)
            if exc is not None:
                FIRED["curve_fit_" + type(exc).__name__] += 1
                raise exc
        return real(f, xdata, ydata, *a, **k)

    curve_fit.__wrapped__ = real
    scipy.optimize.curve_fit = curve_fit
    for name in ("_minpack_py", "minpack"):
        m = getattr(scipy.optimize, name, None)
        if m is not None and hasattr(m, "curve_fit"):
            m.curve_fit = curve_fit


def reset():
    global SELECT
    SELECT = None
    FIRED.clear()


def collect(env):
    env.faults.update(FIRED)
    env.faults.update(pool.PLAN.fired)
    FIRED.clear()
