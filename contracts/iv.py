"""Contracts of the IV / IbIs analysis (qetpy/core/_iv.py, _ibis.py)."""
import numpy as np
from contracts.base import contract
from qetpy.core import _iv as ivs
from qetpy.core import _ibis as ibs

V = "qetpy.core._iv:"
I = "qetpy.core._ibis:"


def u(lo, hi):
    return lambda r: r.uniform(lo, hi)


def wls(x, y, s):
    """weighted least squares of a straight line: intercept, slope, their
    variances"""
    x, y, w = np.asarray(x), np.asarray(y), 1 / np.asarray(s)**2
    sw, xm = np.sum(w), np.sum(w * x) / np.sum(w)
    sxx = np.sum(w * (x - xm)**2)
    m = np.sum(w * (x - xm) * y) / sxx
    b = np.sum(w * y) / sw - m * xm
    return b, m, 1 / sw + xm**2 / sxx, 1 / sxx


class Fit:
    """`scipy.optimize.curve_fit` of a straight line by its contract: what it
    returns are functions of the data"""

    def __init__(self, c):
        self.c = c
        if not c.concrete:
            c.stub("scipy.optimize.curve_fit", self.curve_fit)

    def line(self, x, y, s):
        """intercept, slope, variances"""
        if self.c.concrete:
            return wls(x, y, s)
        f = self.c.functional
        return (f("b", x, y, s), f("m", x, y, s), f("var_b", x, y, s),
                f("var_m", x, y, s))

    def curve_fit(self, fun, x, y, p0=None, sigma=None, absolute_sigma=False,
                  **kw):
        c = self.c
        c.check("the points are weighted by their errors", sigma is not None)
        q, b, m = (c.fresh_real(k) for k in ("q", "p", "p'"))
        r = fun(q, b, m)
        c.check("a straight line is fitted", c.either(r == b + m * q,
                                                      r == m + b * q))
        c.check("the errors are absolute", absolute_sigma is True)
        fb, fm, vb, vm = self.line(x, y, sigma)
        cv = c.functional("cov", x, y, sigma)
        if r == b + m * q:
            return np.array([fb, fm]), np.array([[vb, cv], [cv, vm]])
        return np.array([fm, fb]), np.array([[vm, cv], [cv, vb]])


def sizes(c):
    nd = c.choice("dimensions of the data", [3, 2, 1])
    big = not c.concrete
    nt = c.int("temperatures", lo=1, hi=None if big else 3) if nd == 3 else 1
    nch = c.int("channels", lo=1, hi=None if big else 3) if nd >= 2 else 1
    n = c.int("points", lo=4 if big else 5, hi=None if big else 12)
    shape = {3: (nt, nch, n), 2: (nch, n), 1: (n,)}[nd]
    point = (c.index("t", nt) if nd == 3 else 0,
             c.index("ch", nch) if nd >= 2 else 0, c.index("i", n))
    return nt, nch, n, shape, point


def resistance(c, name, nt, nch, n, shape):
    """a resistance given as number, per channel, per temperature and channel
    or per point; returned with the function of its values"""
    how = c.choice(name, ["number", "channel", "temperature", "point"])
    r = {"number": lambda: c.real(name, pos=True, gen=u(1, 2)),
         "channel": lambda: c.array(name, nch, pos=True),
         "temperature": lambda: c.array(name, (nt, nch), pos=True),
         "point": lambda: c.array(name, (nt, nch, n), pos=True)}[how]()
    e = {"number": lambda: c.real(name + " error", pos=True, gen=u(.1, .2)),
         "channel": lambda: c.array(name + " error", nch, pos=True),
         "temperature": lambda: c.array(name + " error", (nt, nch), pos=True),
         "point": lambda: c.array(name + " error", (nt, nch, n),
                                  pos=True)}[how]()

    def at(t, ch, i):
        k = {"number": None, "channel": (ch,), "temperature": (t, ch),
             "point": (t, ch, i)}[how]
        return (r, e) if k is None else (r[k], e[k])
    return r, e, at


def curves(c, shape, n):
    """a current-bias data set"""
    x = c.array("bias", shape)
    y = c.array("current", shape)
    if c.concrete:      # a normal branch and a steeper rest
        x = np.linspace(3, .5, n) + .02 * x
        y = np.where(np.arange(n) < n - 2, .5 * x, 2.5 - x) + .02 * y + .3
    dy = c.array("current error", shape, pos=True)
    dx = c.array("bias error", shape, pos=True)
    if c.concrete:
        dx, dy = .01 + .01 * dx, .01 + .01 * dy
    return x, y, dx, dy


def close(c, what, a, b):
    c.eq(what, a, b, tol=1e-3)


@contract("I01", [V + "IV.__init__", V + "IV.calc_iv", V + "_fitfunc"])
def iv(c):
    nt, nch, n, shape, (t, ch, i) = sizes(c)
    x, y, dx, dy = curves(c, shape, n)
    rl, drl, rload = resistance(c, "rload", nt, nch, n, shape)
    last = c.int("normal points", lo=2 if not c.concrete else 3,
                 hi=None if not c.concrete else n - 2)
    c.assume(last < n)
    fit = Fit(c)
    names = "abcdefgh"[:nch] if c.concrete else c.array("names", nch)
    o = ivs.IV(y, dy, x, dx, rl, drl, names, normalinds=range(0, last))
    o.calc_iv()
    X, Y, DX, DY = (np.reshape(a, (nt, nch, n))[t, ch]
                    for a in (x, y, dx, dy))
    b, m, vb, vm = fit.line(X[:last], Y[:last], DY[:last])
    R, DR = rload(t, ch, i)
    R0, DR0 = rload(t, ch, 0)
    close(c, "current offset", o.ioff[t, ch], b)
    close(c, "total resistance", o.rfit[t, ch], 1 / m)
    close(c, "normal resistance", o.rnorm[t, ch], 1 / m - R0)
    close(c, "TES current", o.ites[t, ch, i], Y[i] - b)
    cur = Y[i] - b
    close(c, "TES resistance", o.r0[t, ch, i], X[i] / cur - R)
    close(c, "TES power", o.ptes[t, ch, i], cur * X[i] - cur**2 * R)
    v = {"current offset": (o.ioff_err[t, ch], vb),
         "total resistance": (o.rfit_err[t, ch], vm / m**4),
         "normal resistance": (o.rnorm_err[t, ch], vm / m**4 + DR0**2),
         "TES current": (o.ites_err[t, ch, i], DY[i]**2 + vb),
         "TES resistance": (o.r0_err[t, ch, i], (DX[i] / cur)**2 + (
             X[i] / cur**2)**2 * (DY[i]**2 + vb) + DR**2),
         "TES power": (o.ptes_err[t, ch, i], (cur * DX[i])**2 + (
             X[i] - 2 * cur * R)**2 * (DY[i]**2 + vb) + cur**4 * DR**2)}
    for k, (got, var) in v.items():
        close(c, "variance of the " + k, got**2, var)
    c.frame()


@contract("I02", [V + "_findnormalinds", V + "_fitfunc"])
def normal_points(c):
    n = c.int("points", lo=3, hi=None if not c.concrete else 12)
    x, y, _, dy = curves(c, (n,), n)
    if c.concrete and c.flag("straight"):
        y = .5 * x + .01 * y
    tol = c.real("tol", pos=True, gen=u(1, 50))
    fit = Fit(c)

    def good(k, slack=1e-4, define=True):
        """the line through the first k points describes them (a new
        predicate, defined where needed)"""
        if not (c.concrete or define):
            return c.functional("good", k) > 0
        b, m, _, _ = fit.line(x[:k], y[:k], dy[:k])
        v = np.sum(((y[:k] - b - m * x[:k]) / dy[:k])**2) / (k - 2)
        if c.concrete:
            return v <= tol * (1 + slack)
        g = c.functional("good", k) > 0
        c.assume(c.either(c.both(g, v <= tol), c.both(c.neg(g), v > tol)))
        return g
    j = c.int("shorter range", lo=3, hi=None if not c.concrete else n)
    ok = good(j, define=False)
    # the loop counter stays within the data, the ranges tried before the last
    # one are good, and the last one is good if the search goes on
    num, flag = (lambda v: c.kind(v) == "int"), (lambda v: c.kind(v) == "bool")
    c.loop_invariant(lambda v: c.both(2 <= v, v <= n) if num(v) else None)
    c.loop_invariant(lambda v: c.either(v <= j, ok) if num(v) else None)
    c.loop_invariant(lambda go, v: c.either(c.neg(c.both(go, j <= v)), c.both(
        ok, good(v))) if flag(go) and num(v) else None)
    c.loop_invariant(lambda go, v: c.either(c.either(c.neg(go), v < 3), good(
        v)) if flag(go) and num(v) else None)
    c.loop_invariant(lambda go, v: c.either(go, c.both(
        3 <= v, c.neg(good(v)))) if flag(go) and num(v) else None)
    # the same with a counter of the good points only
    c.loop_invariant(lambda v: c.either(v < j, ok) if num(v) else None)
    c.loop_invariant(lambda v: c.either(v < 3, good(v)) if num(v) else None)
    r = ivs._findnormalinds(x, y, dy, tol=tol)
    last = len(r)
    c.check("the points from the first on", last >= 2)
    c.check("within the data", last <= n)
    if last > 0:
        k = c.index("k", last)
        c.check("contiguous", np.array(r)[k] == k)
    if last >= 3:
        c.check("a good straight line", good(last))
    if j <= last:
        c.check("every shorter range is a good straight line",
                c.either(ok, c.both(j == last, good(last))))
    if last < n:
        c.check("one point more is not a straight line",
                c.neg(good(last + 1, -1e-4)))
    c.frame()


def quad(*xs):
    return sum(x**2 for x in xs)


def ibis_case(c):
    nt, nch, n, shape, point = sizes(c)
    x, y, dx, dy = curves(c, shape, n)
    if c.concrete:      # superconducting points with a steep slope at the end
        y = np.where(np.arange(n) < n - 2, y, 2 * x + .05)
    names = "abcdefgh"[:nch] if c.concrete else c.array("names", nch)
    rsh = c.real("rsh", pos=True, gen=u(.5, 1))
    drsh = c.real("rsh error", pos=True, gen=u(.01, .02))
    last = c.int("normal points", lo=2 if not c.concrete else 3,
                 hi=None if not c.concrete else n - 2)
    c.assume(last < n)
    return nt, nch, n, x, y, dx, dy, names, rsh, drsh, last, point, shape


def ibis_point(c, o, point, X, Y, DX, DY, rsh, drsh, off, rp, rfit):
    """everything derived from the offsets, the parasitic and the total
    resistance: first-order propagation of independent errors"""
    t, ch, i = point
    (y0, dy0), (x0, dx0) = off
    (rp, drp), (rfit, drfit) = rp, rfit
    a, b = X[i] - x0, Y[i] - y0
    got = {"TES current offset": (o.ioff[t, ch], y0),
           "bias current offset": (o.ibias_off[t, ch], x0),
           "total resistance": (o.rfit[t, ch], rfit),
           "parasitic resistance": (o.rp[t, ch], rp),
           "normal resistance": (o.rnorm[t, ch], rfit - rsh - rp),
           "TES current": (o.ites[t, ch, i], b),
           "bias current": (o.ibias_true[t, ch, i], a),
           "bias voltage": (o.vb[t, ch, i], a * rsh),
           "TES resistance": (o.r0[t, ch, i], a * rsh / b - (rsh + rp)),
           "TES power": (o.ptes[t, ch, i],
                         a * rsh * b - (rsh + rp) * b**2)}
    var = {"TES current offset": (o.ioff_err[t, ch], quad(dy0)),
           "bias current offset": (o.ibias_off_err[t, ch], quad(dx0)),
           "total resistance": (o.rfit_err[t, ch], drfit**2),
           "parasitic resistance": (o.rp_err[t, ch], drp**2),
           "normal resistance": (o.rnorm_err[t, ch], quad(drfit, drp)),
           "TES current": (o.ites_err[t, ch, i], quad(DY[i], dy0)),
           "bias current": (o.ibias_true_err[t, ch, i], quad(DX[i], dx0)),
           "bias voltage": (o.vb_err[t, ch, i],
                            a**2 * drsh**2 + rsh**2 * quad(DX[i], dx0)),
           "TES resistance": (
               o.r0_err[t, ch, i], (rsh / b)**2 * quad(DX[i], dx0)
               + (a * rsh / b**2)**2 * quad(DY[i], dy0)
               + (a / b - 1)**2 * drsh**2 + drp**2),
           "TES power": (
               o.ptes_err[t, ch, i], (rsh * b)**2 * quad(DX[i], dx0)
               + (a * rsh - 2 * (rsh + rp) * b)**2 * quad(DY[i], dy0)
               + (a * b - b**2)**2 * drsh**2 + b**4 * drp**2)}
    for k, (g, w) in got.items():
        close(c, k, g, w)
    for k, (g, w) in var.items():
        close(c, "variance of the " + k, g**2, w)


@contract("I03", [I + "IBIS.__init__", I + "IBIS.analyze",
                  I + "IBIS._fitfunc", I + "IBIS._rtes", I + "IBIS._rtes_err",
                  I + "IBIS._ptes", I + "IBIS._ptes_err"])
def ibis_without_sc(c):
    """the superconducting branch is not fitted: offset and parasitic
    resistance as given"""
    (nt, nch, n, x, y, dx, dy, names, rsh, drsh, last, point,
     shape) = ibis_case(c)
    fit = Fit(c)
    g, dg, guess = resistance(c, "rp_guess", nt, nch, n, shape)
    given = c.choice("offsets", ["fit", "given"])
    kw = {}
    if given == "given":
        kw = dict(yoff=c.real("yoff", gen=u(0, .1)),
                  yoff_err=c.real("yoff_err", pos=True, gen=u(.01, .02)),
                  xoff=c.real("xoff", gen=u(0, .1)),
                  xoff_err=c.real("xoff_err", pos=True, gen=u(.01, .02)))
    o = ibs.IBIS(y, dy, x, dx, rsh, drsh, range(0, last), rp_guess=g,
                 rp_err_guess=dg, chan_names=names)
    o.analyze(**kw)
    t, ch, i = point
    X, Y, DX, DY = (np.reshape(a, (nt, nch, n))[t, ch]
                    for a in (x, y, dx, dy))
    b, m, vb, vm = fit.line(X[:last], Y[:last], DY[:last])
    off = (b, vb**.5), (0, 0)
    if given == "given":
        off = ((kw["yoff"], kw["yoff_err"]), (kw["xoff"], kw["xoff_err"]))
    rfit = rsh / m, (rsh**2 * vm / m**4 + (drsh / m)**2)**.5
    ibis_point(c, o, point, X, Y, DX, DY, rsh, drsh, off, guess(t, ch, 0),
               rfit)
    c.frame()


@contract("I04", [I + "IBIS.__init__", I + "IBIS.analyze",
                  I + "IBIS._fitfunc", I + "IBIS._rtes", I + "IBIS._rtes_err",
                  I + "IBIS._ptes", I + "IBIS._ptes_err"])
def ibis_with_sc(c):
    """offsets from the crossing of the normal and the superconducting line,
    parasitic resistance from the slope of the latter"""
    (nt, nch, n, x, y, dx, dy, names, rsh, drsh, last, point,
     shape) = ibis_case(c)
    fit = Fit(c)
    first = c.int("first superconducting point", lo=0) if not c.concrete \
        else n - 3
    c.assume(first < n)
    o = ibs.IBIS(y, dy, x, dx, rsh, drsh, range(0, last), chan_names=names,
                 fitsc=True, scinds=range(first, n))
    o.analyze()
    t, ch, i = point
    X, Y, DX, DY = (np.reshape(a, (nt, nch, n))[t, ch]
                    for a in (x, y, dx, dy))
    b, m, vb, vm = fit.line(X[:last], Y[:last], DY[:last])
    B, M, vB, vM = fit.line(X[first:], Y[first:], DY[first:])
    x0 = (b - B) / (M - m)
    y0 = m * x0 + b
    # derivatives of the crossing
    dx0 = (quad(1 / (M - m)) * (vb + vB) + quad(x0 / (M - m)) * (vm + vM))**.5
    dy0 = (quad(M / (M - m)) * vb + quad(m / (M - m)) * vB
           + quad(x0 * M / (M - m)) * vm + quad(x0 * m / (M - m)) * vM)**.5
    rp = rsh / M - rsh, (rsh**2 * vM / M**4 + (1 / M - 1)**2 * drsh**2)**.5
    rfit = rsh / m, (rsh**2 * vm / m**4 + (drsh / m)**2)**.5
    ibis_point(c, o, point, X, Y, DX, DY, rsh, drsh, ((y0, dy0), (x0, dx0)),
               rp, rfit)
    c.frame()


@contract("I05", [V + "IV.__init__", I + "IBIS.__init__"])
def iv_shapes(c):
    """data, channel names and resistances of shapes that do not belong
    together are refused"""
    nt, nch, n, shape, _ = sizes(c)
    x, y, dx, dy = curves(c, shape, n)
    what = c.choice("what is wrong", ["names", "resistance", "dimensions",
                                      "superconducting points", "nothing"])
    names = c.array("names", nch)
    r, dr = (c.real(k, pos=True, gen=u(1, 2)) for k in ("r", "r error"))
    sc = {}
    if what == "names":
        k = c.int("names given", lo=1, hi=None if not c.concrete else 6)
        c.assume(k != nch)
        names = c.array("too many or few names", k)
    if what == "resistance":
        k = c.int("resistances given", lo=1, hi=None if not c.concrete else 6)
        c.assume(k != nch)
        r, dr = c.array("rs", k, pos=True), c.array("drs", k, pos=True)
    if what == "dimensions":
        x, y, dx, dy = (np.reshape(a, (1, nt, nch, n)) for a in (x, y, dx, dy))
    if what == "superconducting points":
        sc = dict(fitsc=True)

    def make_iv():
        return ivs.IV(y, dy, x, dx, r, dr, names)

    def make_ibis():
        return ibs.IBIS(y, dy, x, dx, 1., .1, range(0, 2), rp_guess=r,
                        rp_err_guess=dr, chan_names=names, **sc)
    if what in ("nothing", "superconducting points"):
        c.check("IV has the data", make_iv().dites.shape == (nt, nch, n))
    else:
        err, _ = c.raises(make_iv, ValueError)
        c.check("IV refuses", err is not None)
    if what == "nothing":
        c.check("IBIS has the data", make_ibis().dites.shape == (nt, nch, n))
    else:
        err, _ = c.raises(make_ibis, ValueError)
        c.check("IBIS refuses", err is not None)
