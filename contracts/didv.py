"""Contracts of the dI/dV fitting code (qetpy/core/didv)."""
import numpy as np
from contracts.base import contract
from qetpy.core.didv import _base_didv as base
from qetpy.core.didv._base_didv import _BaseDIDV
from qetpy.core.didv import _didv as didv
from qetpy.core.didv._didv import DIDV
from qetpy.core.didv._didv_priors import DIDVPriors

B = "qetpy.core.didv._base_didv:"
D = "qetpy.core.didv._didv:"
P = "qetpy.core.didv._didv_priors:"


def u(lo, hi):
    return lambda r: r.uniform(lo, hi)


def either(*gs):
    return lambda r: gs[int(r.integers(len(gs)))](r)


def tes(c, poles):
    """small-signal parameters (a valid set for the model)"""
    p = dict(rsh=c.real("rsh", pos=True, gen=u(0.002, 0.01)),
             rp=c.real("rp", pos=True, gen=u(0.001, 0.01)),
             L=c.real("L", pos=True, gen=u(1e-7, 9e-7)))
    if poles > 1:
        p.update(r0=c.real("r0", pos=True, gen=u(0.05, 0.3)),
                 beta=c.real("beta", nonneg=True, gen=u(0, 3)),
                 l=c.real("l", pos=True, gen=either(u(0.1, 0.8), u(2, 20))),
                 tau0=c.real("tau0", pos=True, gen=u(1e-4, 2e-3)))
        c.assume(p["l"] != 1)
    if poles > 2:
        p.update(gratio=c.real("gratio", pos=True, gen=u(0.05, 0.6)),
                 tau3=c.real("tau3", pos=True, gen=u(1e-4, 2e-3)))
    return p


def fitpars(c, poles, signs=True):
    """fit parameters of the pole model"""
    p = [c.real("A", pos=True, gen=u(0.05, 0.4))]
    s = -1 if signs and c.flag("loop gain above 1") else 1
    if poles > 1:
        p.append(s * c.real("B", pos=True, gen=u(0.5, 3)))
    if poles > 2:
        p.append(s * c.real("C", pos=True, gen=u(0.01, 0.6)))
    if poles > 1:
        p.append(s * c.real("tau1", pos=True, gen=u(1e-5, 1e-3)))
    p.append(c.real("tau2", pos=True, gen=u(1e-7, 1e-5)))
    if poles > 2:
        p.append(c.real("tau3", pos=True, gen=u(1e-4, 2e-3)))
    p.append(c.real("dt", gen=u(-1e-5, 1e-5)))
    return p


ORDER = {1: ("rsh", "rp", "L"),
         2: ("rsh", "rp", "r0", "beta", "l", "L", "tau0"),
         3: ("rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3")}


def pole_z(f, poles, q):
    """impedance of the pole model"""
    s = 2j * np.pi * f
    if poles == 1:
        A, t2 = q[:2]
        return A * (1 + s * t2)
    if poles == 2:
        A, Bq, t1, t2 = q[:4]
        return A * (1 + s * t2) + Bq / (1 + s * t1)
    A, Bq, Cq, t1, t2, t3 = q[:6]
    return A * (1 + s * t2) + Bq / (1 + s * t1 - Cq / (1 + s * t3))


def tes_z(f, p):
    """impedance from the small-signal equations of the TES"""
    s = 2j * np.pi * f
    z = p["rsh"] + p["rp"] + s * p["L"]
    if "r0" not in p:
        return z
    th = 1 - p["l"] + s * p["tau0"]
    if "gratio" in p:
        th = th - p["gratio"] / (1 + s * p["tau3"])
    return z + p["r0"] * (1 + p["beta"]) + \
        p["r0"] * p["l"] * (2 + p["beta"]) / th


@contract("D01", [B + "_BaseDIDV._converttotesvalues",
                  B + "_BaseDIDV._convertfromtesvalues"])
def tes_round_trip(c):
    poles = c.choice("poles", [1, 2, 3])
    c.need(_BaseDIDV, "_converttotesvalues")
    c.need(_BaseDIDV, "_convertfromtesvalues")
    if c.flag("start from the fit parameters"):
        q = fitpars(c, poles)
        rsh = c.real("rsh", pos=True, gen=u(0.002, 0.01))
        rp = c.real("rp", pos=True, gen=u(0.001, 0.01))
        r0 = c.real("r0", pos=True, gen=u(0.05, 0.3))
        v = _BaseDIDV._converttotesvalues(q, rsh, r0, rp)
        w = _BaseDIDV._convertfromtesvalues(v)
        c.eq("fit -> TES -> fit", [w[i] for i in range(len(q))], q)
        c.eq("shunt resistance is kept", v[0], rsh)
        p = dict(zip(ORDER[poles], v))
        f = c.real("f", nonneg=True, gen=u(0, 1e5))
        c.eq("same impedance", tes_z(f, p), pole_z(f, poles, q))
        if poles > 1:
            c.eq("parasitic resistance is kept", v[1], rp)
            c.eq("TES resistance is kept", v[2], r0)
    else:
        p = tes(c, poles)
        dt = c.real("dt", gen=u(-1e-5, 1e-5))
        v = [p[k] for k in ORDER[poles]] + [dt]
        q = _BaseDIDV._convertfromtesvalues(v)
        r0 = p["r0"] if poles > 1 else c.real("r0", pos=True)
        w = _BaseDIDV._converttotesvalues(q, p["rsh"], r0, p["rp"])
        for i, k in enumerate(ORDER[poles] + ("dt",)):
            c.eq("TES -> fit -> TES: " + k, w[i], v[i],
                 scale=1 if k == "beta" else None)


def freqs(c):
    if c.flag("scalar frequency"):
        return c.real("f", nonneg=True, gen=lambda r: r.choice(
            [0., r.uniform(1, 1e5)]))
    n = c.int("n", lo=1)
    return c.array("f", n, gen=lambda r, m: r.uniform(-1e5, 1e5, m))


@contract("D02", [B + "compleximpedance", B + "complexadmittance",
                  B + "_pole_extractor"] + [
    B + "_BaseDIDV." + m for m in (
        "_onepoleimpedance", "_twopoleimpedance", "_threepoleimpedance",
        "_convertfromtesvalues")])
def impedance(c):
    poles = c.choice("poles", [1, 2, 3])
    p = tes(c, poles)
    f = freqs(c)
    kw = dict(p)
    if c.flag("extra keywords"):
        kw["dt"] = c.real("dt")
    z = base.compleximpedance(f, **kw)
    y = base.complexadmittance(f, **kw)
    ref = tes_z(f, p)
    c.eq("impedance solves the small-signal equations", z, ref)
    c.eq("admittance is the reciprocal", y * z, 1 + 0 * f)
    if poles > 1:
        few = dict(p)
        # a decoupled body does not change the impedance
        g = dict(tes(c, 3), **{k: p[k] for k in ORDER[2]})
        if poles == 2:
            g["gratio"] = 0
            c.eq("third body decoupled", base.compleximpedance(f, **g), z)
        few["l"] = 0
        if poles == 2:
            c.eq("no loop gain: a resistor", base.compleximpedance(f, **few),
                 base.compleximpedance(
                     f, rsh=p["rsh"], L=p["L"],
                     rp=p["rp"] + p["r0"] * (1 + p["beta"])))
    for k in ("rsh", "rp", "L"):
        for g in (base.compleximpedance, base.complexadmittance):
            miss = {a: b for a, b in kw.items() if a != k}
            e, _ = c.raises(lambda: g(f, **miss), ValueError)
            c.check("incomplete parameter sets are refused (%s)" % k,
                    e is not None)
    c.frame()


@contract("D04", [B + "_BaseDIDV._findpolefalltimes"])
def falltimes(c):
    poles = c.choice("poles", [1, 2, 3])
    c.need(_BaseDIDV, "_findpolefalltimes")
    q = fitpars(c, poles)

    def fsolve(fun, x0, *a, **k):
        m = len(x0)
        if c.concrete:
            x = real(fun, x0, *a, **k)
            c.assume(np.all(np.abs(fun(x)) <= 1e-9 * np.abs(fun(0 * x))))
            return x
        x = [c.fresh_real("root%d" % i) for i in range(m)]
        r = fun(x)
        c.check("as many equations as unknowns", len(r) == m)
        for v in r:
            c.assume(v == 0)
        return x
    real = c.stub("scipy.optimize.fsolve", fsolve)
    t = _BaseDIDV._findpolefalltimes(np.array(q))
    c.check("one fall time per pole", len(t) == poles)
    for i in range(poles - 1):
        c.check("sorted from short to long", t[i] <= t[i + 1])
    f = c.real("f", gen=u(-1e4, 1e4))
    s = 2j * np.pi * f
    z = pole_z(f, poles, q)
    # Z * den = z0 * (1 + e1 s + e2 s^2 + e3 s^3), so that the admittance has
    # its poles at the fall times iff they have these symmetric functions
    if poles == 1:
        den, z0, e = 1, q[0], [q[1]]
    elif poles == 2:
        A, Bq, t1, t2, _ = q
        den, z0 = 1 + s * t1, A + Bq
        e = [A * (t1 + t2) / z0, A * t1 * t2 / z0]
    else:
        A, Bq, C, t1, t2, t3, _ = q
        den = (1 + s * t1) * (1 + s * t3) - C
        z0 = A * (1 - C) + Bq
        e = [(A * t1 + A * (1 - C) * t2 + (A + Bq) * t3) / z0,
             A * (t1 * t2 + t1 * t3 + t2 * t3) / z0, A * t1 * t2 * t3 / z0]
    num = 1 + sum(e[i] * s**(i + 1) for i in range(poles))
    c.eq("rational form of the impedance", z * den, z0 * num,
         scale=abs(q[0]), tol=1e-5)
    if poles == 1:
        got = [t[0]]
    elif poles == 2:
        got = [t[0] + t[1], t[0] * t[1]]
    else:
        got = [t[0] + t[1] + t[2], t[0] * t[1] + t[0] * t[2] + t[1] * t[2],
               t[0] * t[1] * t[2]]
    for i in range(poles):
        c.eq("fall times are the poles of the admittance (order %d)"
             % (i + 1), got[i], e[i], tol=1e-5)


class Res(dict):
    """optimiser result: attribute and item access"""

    def __getattr__(self, k):
        return self[k]


class LeastSquares:
    """contract of scipy.optimize.least_squares: refuses starting points
    outside the bounds and non-positive scales; returns some point, its cost
    and the Jacobian"""

    def __init__(self, c, ok=None):
        self.c = c
        self.ok = c.flag("converged") if ok is None else ok
        self.calls = []
        c.stub("scipy.optimize.least_squares", self.fit)

    def fit(self, fun, x0, jac="2-point", bounds=(-np.inf, np.inf),
            x_scale=1.0, **kw):
        c = self.c
        m = len(x0)
        lo = [bounds[0][i] for i in range(m)]
        hi = [bounds[1][i] for i in range(m)]
        for i in range(m):
            c.check("starting point inside the bounds (least_squares "
                    "precondition)", c.both(lo[i] <= x0[i], x0[i] <= hi[i]))
            c.check("scales are positive (least_squares precondition)",
                    x_scale[i] > 0)
        k = str(len(self.calls))
        x = [c.fresh_real("x%s_%d" % (k, i)) for i in range(m)]
        rows = c.int("rows" + k, lo=m)
        r = Res(x=np.array(x), cost=c.real("cost" + k, nonneg=True),
                jac=c.fresh_array("jac" + k, (rows, m)),
                success=self.ok, message="stopped")
        self.calls.append((fun, lo, hi, r))
        return r


def regular(c, fn):
    """the Jacobian at the minimum has full rank"""
    try:
        return fn()
    except np.linalg.LinAlgError:
        c.assume(False)


def fit_inputs(c, poles, dt0=True):
    n = c.int("n", lo=1)
    f = c.array("freq", n, gen=lambda r, m: r.uniform(-1e5, 1e5, m))
    y = c.array("didv", n, real=False)
    kw = dict(A0=c.real("A0", pos=True, gen=u(0.1, 0.4)),
              tau20=c.real("tau20", pos=True, gen=u(1e-7, 1e-6)),
              dt=c.real("dt0", gen=either(u(-1e-4, 1e-4), u(0, 0)))
              if dt0 else c.real("dt0", pos=True, gen=u(1e-6, 1e-4)))
    if poles > 1:
        kw.update(B0=-c.real("B0", pos=True, gen=u(0, 1)),
                  tau10=-c.real("tau10", pos=True, gen=u(1e-5, 1e-3)))
    if poles > 2:
        kw.update(C0=-c.real("C0", pos=True, gen=u(0, 1)),
                  tau30=c.real("tau30", pos=True, gen=u(0, 1e-3)))
    return n, f, y, kw


@contract("D06", [D + "DIDV._fitdidv"])
def fit_cost(c):
    """the function that is minimised"""
    c.need(DIDV, "_fitdidv")
    poles = c.choice("poles", [1, 2, 3])
    n, f, y, kw = fit_inputs(c, poles, False)
    if c.flag("errors given"):
        sr = c.array("sr", n, pos=True)
        si = c.array("si", n, pos=True)
        sig = sr + 1j * si
    else:
        sr = si = 1
        sig = None
    ls = LeastSquares(c, True)
    sub1 = c.choice("isloopgainsub1", [None, False])
    regular(c, lambda: DIDV._fitdidv(f, y, yerr=sig, poles=poles,
                                     isloopgainsub1=sub1, **kw))
    q = fitpars(c, poles, False)
    m = pole_z(f, poles, q)
    d = y - 1 / m * np.exp(-2j * np.pi * f * q[-1])
    chi2 = np.sum(np.real(d)**2 / sr**2 + np.imag(d)**2 / si**2)
    for fun, lo, hi, r in ls.calls:
        v = fun(np.array(q))
        c.eq("the minimised sum of squares is the weighted chi2",
             np.sum(v**2), chi2, scale=np.sum(np.real(y)**2 / sr**2
                                              + np.imag(y)**2 / si**2))
    c.frame()


@contract("D06", [D + "DIDV._fitdidv"])
def fit_didv(c):
    """starting points, regions, choice of the better fit, covariance"""
    c.need(DIDV, "_fitdidv")
    poles = c.choice("poles", [1, 2, 3])
    n, f, y, kw = fit_inputs(c, poles)
    sub1 = c.choice("isloopgainsub1", [None, True, False])
    ls = LeastSquares(c)
    popt, pcov, cost = regular(c, lambda: DIDV._fitdidv(
        f, y, poles=poles, isloopgainsub1=sub1, **kw))
    c.check("both signs are tried unless the sign is known",
            len(ls.calls) == (2 if sub1 is None else 1))
    if sub1 is None:
        # every admissible parameter set is inside one of the two regions
        for s, (fun, lo, hi, r) in zip((-1, 1), ls.calls):
            if poles > 1:
                c.check("one region per sign of B",
                        hi[1] <= 0 if s < 0 else lo[1] >= 0)
        a, b = ls.calls[0][3], ls.calls[1][3]
        c.check("the better of the two fits is returned",
                c.both(cost <= a.cost, cost <= b.cost))
        if a.cost < b.cost:
            best = a
        else:
            best = b
            c.assume(b.cost < a.cost)
    else:
        fun, lo, hi, best = ls.calls[0]
        if poles > 1:
            c.check("sign of the loop gain", (lo[1] >= 0) if sub1
                    else (hi[1] <= 0))
        c.eq("cost of the fit", cost, best.cost)
    for i in range(len(best.x)):
        c.eq("parameters of the best fit", popt[i], best.x[i])
    c.eq("covariance = (J^T J)^-1", pcov, np.linalg.inv(
        np.dot(best.jac.T, best.jac)))
    c.frame()


def grid(c, name="t"):
    """uniform time axis with a whole number of signal periods"""
    per = c.int("bins per period", lo=4, hi=None if not c.concrete else 12)
    npd = c.int("periods", lo=1, hi=None if not c.concrete else 4)
    n = per * npd
    sg = c.real("sgfreq", pos=True, gen=u(50, 200))
    fs = per * sg
    return per, npd, n, sg, fs


def admittance_contract(c, p, n):
    """callee contract of _threepoleadmittance: the admittance of the TES on
    the grid, some function with Y(-f) = conj(Y(f))"""
    poles = 1 if "r0" not in p else (3 if "gratio" in p else 2)
    G = c.array("Y", n, real=False)
    Y = np.where(2 * np.arange(n) < n, G,
                 np.conj(np.roll(np.flip(G), 1)))

    def three(freq, A, B, C, tau1, tau2, tau3):
        want = _BaseDIDV._convertfromtesvalues(tuple(
            p[k] for k in ORDER[poles]) + (0,))
        if poles == 1:
            full = (want[0], 0, 0, 0, want[1], 0)
        elif poles == 2:
            full = (want[0], want[1], 0, want[2], want[3], 0)
        else:
            full = want[:6]
        for i, v in enumerate((A, B, C, tau1, tau2, tau3)):
            c.eq("impedance parameters of the TES (order %d)" % i, v,
                 full[i])
        return np.array([0j]) + Y
    c.override(B + "_BaseDIDV._threepoleadmittance", three)
    return Y


ORDER = {1: ("rsh", "rp", "L"),
         2: ("rsh", "rp", "r0", "beta", "l", "L", "tau0"),
         3: ("rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3")}


def drive(c, duty):
    """a harmonic of the square wave below the Nyquist frequency, its bin and
    its Fourier coefficient for unit amplitude"""
    per, npd, n, sg, fs = grid(c)
    h = c.int("harmonic", lo=0, hi=None if not c.concrete else 5)
    q = 2 * h + 1
    if duty != "half" and c.flag("even harmonic"):
        q = 2 * h + 2
    k = q * npd
    c.assume(2 * k < n - 1)
    if duty == "half":
        d = 0.5
        co = 1j / (np.pi * q)
    else:
        d = c.real("duty", pos=True, gen=u(0.1, 0.4))
        c.assume(d < 1)
        c.assume(d != 0.5)
        co = 1j / (2 * np.pi * q) * (1 - np.exp(-2j * np.pi * q * d))
    amp = c.real("sgamp", pos=True, gen=u(1e-6, 1e-5))
    t = c.real("t0", gen=u(-1e-4, 1e-4)) + np.arange(n) / fs
    return n, npd, sg, q, k, amp, t, d, co


@contract("D03", [B + "squarewaveresponse", B + "_BaseDIDV._convolvedidv"])
def square_wave(c):
    """response to a square wave of current amp: one Fourier coefficient per
    harmonic"""
    p = tes(c, c.choice("poles", [1, 2, 3]))
    n, npd, sg, q, k, amp, t, d, co = drive(
        c, c.choice("duty cycle", ["half", "other"]))
    if not c.concrete:
        Y = admittance_contract(c, p, n)
        y = Y[k]
    else:
        y = base.complexadmittance(q * sg, **p)
    tr = base.squarewaveresponse(t, amp, sg, d, **p)
    c.eq("current at a harmonic", np.fft.fft(tr)[k] / n,
         co * amp * p["rsh"] * y)


@contract("D03", [B + "_BaseDIDV._deconvolvedidv"])
def recovered_admittance(c):
    """admittance of a trace at a harmonic of either sign"""
    duty = c.choice("duty cycle", ["half", "other"])
    n, npd, sg, q, k, amp, t, d, co = drive(c, duty)
    rsh = c.real("rsh", pos=True, gen=u(0.001, 0.1))
    tr = c.array("trace", n)
    st = np.fft.fft(tr)
    sq = co * amp * rsh * n
    if c.flag("negative frequency"):
        k, q, sq = n - k, -q, np.conj(sq)
    c.assume(np.abs(st[k]) > 0)
    c.assume(np.abs(sq / st[k]) >= 1e-16)
    f, y, zero = _BaseDIDV._deconvolvedidv(t, tr, rsh, amp, sg, d)
    c.eq("frequency of the harmonic", f[k], q * sg)
    c.eq("current over voltage at a harmonic", y[k], st[k] / sq)
    c.check("harmonics are used", not zero[k])


@contract("D03", [B + "_BaseDIDV._deconvolvedidv"])
def unused_frequencies(c):
    """the frequencies without signal are marked"""
    duty = c.choice("duty cycle", ["half", "other"])
    n, npd, sg, q, k, amp, t, d, co = drive(c, duty)
    rsh = c.real("rsh", pos=True, gen=u(0.001, 0.1))
    tr = c.array("trace", n)
    f, y, zero = _BaseDIDV._deconvolvedidv(t, tr, rsh, amp, sg, d)
    # a bin without signal
    b = c.choice("parity", [0, 1])
    a = c.int("order", lo=0, hi=None if not c.concrete else 3)
    r = c.int("remainder", lo=0, hi=npd - 1)
    c.assume(r >= b)
    if duty != "half":
        c.assume(c.either(r >= 1, a == 0))
    m = (2 * a + b) * npd + r
    c.assume(npd <= 10**6)
    c.assume(2 * m < n)
    if c.flag("negative frequency"):
        c.assume(m >= 1)
        m = n - m
    c.assume(np.fft.fft(tr)[m] != 0)
    c.check("frequencies without signal are marked", zero[m])


NAMES = {1: ("A", "tau2", "dt"), 2: ("A", "B", "tau1", "tau2", "dt"),
         3: ("A", "B", "C", "tau1", "tau2", "tau3", "dt")}


@contract("D05", [B + "_BaseDIDV._guessdidvparams",
                  B + "_BaseDIDV._squarewaveguessparams"])
def guesses(c):
    """starting values have the signs the fit regions require"""
    c.need(_BaseDIDV, "_guessdidvparams")
    c.need(_BaseDIDV, "_squarewaveguessparams")
    n = c.int("n", lo=1)
    m = c.int("flat points", lo=1)
    tr = c.array("trace", n)
    flat = c.array("flat", m, gen=lambda r, k: r.normal() + 0.1 * r.normal(
        size=k))
    amp = c.real("sgamp", pos=True, gen=u(1e-6, 1e-5))
    rsh = c.real("rsh", pos=True, gen=u(0.002, 0.01))
    top = np.max(tr)
    c.assume(top > np.mean(flat))
    c.assume(np.mean(flat) != np.mean(tr))
    A, Bq, t1, t2, sub1 = _BaseDIDV._guessdidvparams(tr, flat, amp, rsh)
    c.check("A > 0", A > 0)
    c.check("B <= 0", Bq <= 0)
    c.check("tau1 < 0", t1 < 0)
    c.check("tau2 > 0", t2 > 0)
    c.eq("plateau below the mean: loop gain below 1", sub1,
         np.mean(flat) < np.mean(tr))
    c.eq("A = overshoot admittance^-1", A * (top - np.mean(flat)), amp * rsh)
    lo = np.min(tr)
    c.assume(lo < top)
    A, t2 = _BaseDIDV._squarewaveguessparams(tr, amp, rsh)
    c.check("A > 0", A > 0)
    c.check("tau2 > 0", t2 > 0)
    c.eq("A = swing admittance^-1", A * (top - lo), amp * rsh)
    c.frame()


class Fitter:
    """contract of _fitdidv (D06): needs starting values of the right sign,
    returns the parameters, their covariance and the cost of the fit"""

    def __init__(self, c):
        self.c = c
        self.calls = []
        c.override(D + "DIDV._fitdidv", self.fit)

    def fit(self, freq, didv, yerr=None, A0=0.25, B0=-0.6, C0=-0.6,
            tau10=-1e-4, tau20=1e-6, tau30=0.0, dt=-1e-5, poles=2,
            isloopgainsub1=None):
        c = self.c
        c.check("A0 > 0, tau20 > 0 (precondition of the fit)",
                c.both(A0 >= 0, tau20 >= 0))
        if poles > 1:
            c.check("B0, tau10 <= 0 (precondition of the fit)",
                    c.both(B0 <= 0, tau10 <= 0))
        if poles > 2:
            c.check("C0 <= 0 <= tau30 (precondition of the fit)",
                    c.both(C0 <= 0, tau30 >= 0))
        s = str(len(self.calls))
        q = [c.real(k + s, pos=k != "dt") for k in NAMES[poles]]
        if poles > 1 and c.flag("loop gain above 1"):
            for i in range(1, 2 * poles - 2):
                q[i] = -q[i]
        m = len(q)
        cov = c.array("cov" + s, (m, m))
        for i in range(m):
            c.assume(cov[i, i] >= 0)
        cost = c.real("cost" + s, nonneg=True)
        self.calls.append(dict(freq=freq, didv=didv, yerr=yerr, dt=dt,
                               poles=poles, q=q, cov=cov, cost=cost))
        return np.array(q), cov, cost


def one_period(c):
    n = c.int("bins per period", lo=4, hi=None if not c.concrete else 400,
              gen=lambda r: int(r.integers(40, 200)))
    sg = c.real("sgfreq", pos=True, gen=lambda r: float(r.integers(50, 200)))
    amp = c.real("sgamp", pos=True, gen=u(1e-6, 1e-5))
    p = dict(rsh=c.real("rsh", pos=True, gen=u(0.002, 0.01)),
             rp=c.real("rp", pos=True, gen=u(0.001, 0.01)),
             r0=c.real("r0", pos=True, gen=u(0.05, 0.3)))
    tm = c.array("tmean", n)
    y = c.array("didvmean", n, real=False)
    sr = c.array("sr", n, pos=True)
    si = c.array("si", n, pos=True)
    if c.concrete:
        # a realistic admittance
        f = np.fft.fftfreq(n, d=1 / (n * sg))
        q = dict(rsh=p["rsh"], rp=p["rp"], r0=p["r0"], beta=0.5, l=10.,
                 L=1e-4, tau0=1e-2)
        y0 = base.complexadmittance(f, **q)
        tm = base.squarewaveresponse(np.arange(n) / (n * sg), amp, sg, **q)
        y = y0 * (1 + 0.01 * y)
        return n, sg, amp, p, tm, y, np.abs(y0) * 0.01 * (1 + 1j)
    return n, sg, amp, p, tm, y, sr + 1j * si


@contract("D05", [D + "DIDV.dofit", D + "DIDV._fitresult",
                  B + "_BaseDIDV.fitresult"])
def fit_results(c):
    c.need(DIDV, "_fitdidv")
    poles = c.choice("poles", [1, 2, 3])
    n, sg, amp, p, tm, y, sig = one_period(c)
    ft = Fitter(c)

    def guess(trace, flatpts, sgamp, rsh, L0=1e-7):
        return (c.real("A0", pos=True), -c.real("B0", nonneg=True),
                -c.real("tau10", pos=True), c.real("tau20", pos=True),
                c.flag("plateau below the mean"))
    c.override(B + "_BaseDIDV._guessdidvparams", guess)
    c.override(B + "_BaseDIDV._squarewaveguessparams",
               lambda trace, sgamp, rsh: (c.real("A0", pos=True), 1e-6))
    taus = c.array("taus", poles) if not c.concrete else None
    c.override(B + "_BaseDIDV._findpolefalltimes", lambda params: taus)
    dt0 = c.real("dt0", gen=u(0, 1e-5))
    obj = didv.didvinitfromdata(
        tm, y, sig, c.real("offset"), c.real("offset_err", pos=True), n * sg,
        sg, amp, p["rsh"], r0=p["r0"], rp=p["rp"], dt0=dt0)
    cut = c.real("fcutoff", pos=True, gen=u(50, 1000))
    before = poles == 3 and c.flag("after a 2-pole fit")
    spied = c.spy(D + "DIDV._fitdidv")
    try:
        if before:
            obj.dofit(2, fcutoff=cut)
            r2 = dict(obj.fitresult(2))
            dt0 = r2["params"]["dt"]
        obj.dofit(poles, fcutoff=cut)
    except np.linalg.LinAlgError:
        c.assume(False)         # no unique minimum
    except ValueError as e:
        # numerical failure inside the minimiser
        c.assume(not (c.concrete and "trust region" in str(e)))
        raise
    r = obj.fitresult(poles)
    if c.concrete:
        for call in spied[-1:]:
            f = np.fft.fftfreq(n, d=1 / (n * sg))
            keep = np.abs(f) < cut
            c.eq("frequencies below the cut-off", call["freq"], f[keep])
            c.eq("admittance below the cut-off", call["didv"], y[keep])
            c.eq("errors below the cut-off", call["yerr"], sig[keep])
            c.eq("starting time offset", call["dt"], dt0)
        q = [r["params"][k] for k in NAMES[poles]]
        cov = r["cov"]
        c.eq("fall times", r["falltimes"], _BaseDIDV._findpolefalltimes(q),
             tol=1e-3)
    else:
        call = ft.calls[-1]
        f = np.fft.fftfreq(n, d=1 / (n * sg))
        keep = np.abs(f) < cut
        c.eq("frequencies below the cut-off", call["freq"], f[keep])
        c.eq("admittance below the cut-off", call["didv"], y[keep])
        c.eq("errors below the cut-off", call["yerr"], sig[keep])
        c.eq("starting time offset", call["dt"], dt0)
        q, cov = call["q"], call["cov"]
        c.eq("cost", r["cost"], call["cost"])
        c.eq("covariance", r["cov"], cov)
        c.eq("fall times", r["falltimes"], taus)
    names = NAMES[poles]
    c.check("one entry per parameter", set(r["params"]) == set(names))
    c.check("one error per parameter", set(r["errors"]) == set(names))
    for i, k in enumerate(names):
        c.eq("parameter " + k, r["params"][k], q[i])
        if not c.concrete or cov[i, i] > 0:
            c.eq("error of " + k, r["errors"][k]**2, cov[i, i])
    ss = r["smallsignalparams"]
    c.check("small-signal parameters",
            set(ss) == set(ORDER[poles]) | {"dt"})
    w = _BaseDIDV._convertfromtesvalues(
        tuple(ss[k] for k in ORDER[poles]) + (ss["dt"],))
    for i, k in enumerate(names):
        c.eq("small-signal parameters of the fit: " + k, w[i], q[i])
    z0 = q[0] if poles == 1 else (
        q[0] + q[1] if poles == 2 else q[0] + q[1] / (1 - q[2]))
    c.eq("didv(0)", r["didv0"], 1 / z0)
    c.check("other models untouched", all(
        len(obj.fitresult(k)) == 0 for k in (1, 2, 3)
        if k != poles and not (before and k == 2)))
    if before:
        c.check("the result of the earlier fit is kept", all(
            obj.fitresult(2)[k] is r2[k] for k in r2))


@contract("D07", [B + "_BaseDIDV.processtraces", B + "stdcomplex"])
def processed_traces(c):
    """whole periods are kept; mean, standard error and offset of the
    admittances of the traces"""
    sg = c.real("sgfreq", pos=True, gen=lambda r: float(r.integers(50, 200)))
    per = c.int("bins per period", lo=4, hi=None if not c.concrete else 30)
    npd = c.int("periods", lo=1, hi=None if not c.concrete else 4)
    rest = c.int("tail", lo=0, hi=per - 1)
    ntr = c.int("traces", lo=2, hi=None if not c.concrete else 5)
    fs = per * sg
    amp = c.real("sgamp", pos=True, gen=u(1e-6, 1e-5))
    rsh = c.real("rsh", pos=True, gen=u(0.002, 0.01))
    gain = c.real("gain", pos=True, gen=u(0.5, 2))
    dt0 = c.real("dt0", gen=u(0, 1e-3))
    raw = c.array("raw", (ntr, npd * per + rest))
    half = c.flag("add180phase")
    d = 0.5
    if c.flag("other duty cycle"):
        d = c.real("dutycycle", pos=True, gen=u(0.1, 0.4))
        c.assume(c.both(d < 1, d != 0.5))
    obj = DIDV(raw, fs, sg, amp, rsh, tracegain=gain, add180phase=half,
               dt0=dt0, dutycycle=d)
    n = npd * per
    H = c.array("inverse square wave", n, real=False)
    Z = c.array("bins without signal", n, dtype="b")

    def deconvolve(x, trace, rsh_, sgamp, sgfreq, dutycycle):
        """callee contract (D03): linear in the trace, for these settings"""
        c.eq("settings of the deconvolution",
             [rsh_, sgamp, sgfreq, dutycycle], [rsh, amp, sg, d])
        c.eq("times of the deconvolution", x, np.arange(n) / fs - off)
        return (np.fft.fftfreq(n, d=1 / fs), np.fft.fft(trace) * H, 1 * Z > 0)
    c.override(B + "_BaseDIDV._deconvolvedidv", deconvolve)
    off = dt0 + 1 / (2 * sg) if half else dt0
    obj.processtraces()
    c.eq("time", obj._time, np.arange(n) / fs - off)
    c.eq("traces", obj._traces, raw[:, :n] / gain)
    c.eq("mean trace", obj._tmean, np.mean(raw[:, :n], axis=0) / gain)
    c.eq("number of traces", obj._ntraces, ntr)
    # flat region: from 25 % to 48 % of a period
    fl = obj._flatinds
    ph = (fl - int(off * fs)) % per
    c.check("flat points are in the trace", np.all((fl > 0) & (fl < n)))
    c.check("flat points are in the flat part of a period",
            np.all((ph > per / 4 - 1) & (ph < 0.48 * per)))
    ys = np.array([_BaseDIDV._deconvolvedidv(
        obj._time, raw[i, :n] / gain, rsh, amp, sg, d)[1]
        for i in range(ntr)])
    f, _, zero = _BaseDIDV._deconvolvedidv(
        obj._time, np.mean(raw[:, :n], axis=0) / gain, rsh, amp, sg, d)
    c.eq("frequencies", obj._freq, f)
    c.eq("mean admittance", obj._didvmean, np.mean(ys, axis=0))
    k = c.int("k", lo=0, hi=n - 1)
    s = obj._didvstd[k]
    if zero[k]:
        c.check("no weight at frequencies without signal",
                c.both(np.real(s) >= 1e20, np.imag(s) >= 1e20))
    else:
        c.eq("standard error (real part)", np.real(s)**2,
             np.var(np.real(ys[:, k])) / ntr)
        c.eq("standard error (imaginary part)", np.imag(s)**2,
             np.var(np.imag(ys[:, k])) / ntr)
    m = np.mean(raw[:, :n], axis=1) / gain
    c.eq("offset", obj._offset, np.mean(m))
    c.eq("error of the offset", obj._offset_err**2, np.var(m) / ntr)
    c.frame()


@contract("D08", [D + "didvinitfromdata", B + "_BaseDIDV.processtraces"])
def init_from_data(c):
    """an object made from averaged data is on the same grid as one made from
    the traces"""
    sg = c.real("sgfreq", pos=True, gen=lambda r: float(r.integers(50, 200)))
    per = c.int("bins per period", lo=4, hi=None if not c.concrete else 30)
    npd = c.int("periods", lo=1, hi=None if not c.concrete else 4)
    ntr = c.int("traces", lo=2, hi=None if not c.concrete else 5)
    fs = per * sg
    amp = c.real("sgamp", pos=True, gen=u(1e-6, 1e-5))
    rsh = c.real("rsh", pos=True, gen=u(0.002, 0.01))
    dt0 = c.real("dt0", gen=u(0, 1e-3))
    raw = c.array("raw", (ntr, npd * per))
    half = c.flag("add180phase")
    kw = dict(rp=c.real("rp", pos=True), r0=c.real("r0", pos=True),
              dt0=dt0, add180phase=half)
    a = DIDV(raw, fs, sg, amp, rsh, **kw)
    a.processtraces()
    b = didv.didvinitfromdata(a._tmean, a._didvmean, a._didvstd, a._offset,
                              a._offset_err, fs, sg, amp, rsh, **kw)
    for k in ("_tmean", "_didvmean", "_didvstd", "_offset", "_offset_err",
              "_time", "_freq", "_flatinds", "_dt0", "_rsh", "_rp", "_r0",
              "_sgamp", "_sgfreq", "_fs"):
        c.eq(k, getattr(b, k), getattr(a, k))


class Migrad:
    """contract of iminuit.Minuit.from_array_func (1.x): the minimum found by
    migrad respects the limits; fval is the function there"""

    def __init__(self, c):
        self.c = c
        self.calls = []
        me = self

        class Minuit:
            @staticmethod
            def from_array_func(fcn, start, error=None, errordef=1,
                                limit=None, **kw):
                return me.make(fcn, start, error, errordef, limit)
        c.stub("iminuit.Minuit", Minuit)

    def make(self, fcn, start, error, errordef, limit):
        c = self.c
        m = len(start)
        s = str(len(self.calls))
        r = Res(start=start, limit=limit, errordef=errordef, ran=[])
        x = []
        for i in range(m):
            lo, hi = limit[i]
            x.append(c.real("min%s_%d" % (s, i), nonneg=lo is not None,
                            gen=u(0.1, 2)))
        x = np.array(x)
        cov = c.array("mincov" + s, (m, m))
        for i in range(m):
            c.assume(cov[i, i] >= 0)
        r.x = x
        r.cov = cov
        r["migrad"] = lambda *a, **k: r.ran.append(1)
        r["np_values"] = lambda: x
        r["np_covariance"] = lambda: cov
        r["fval"] = fcn(x)
        r["fcn"] = fcn
        self.calls.append(r)
        return r


@contract("D09", [P + "DIDVPriors._fitdidv",
                  P + "DIDVPriors._onepolescaledadmittance",
                  P + "DIDVPriors._twopolescaledadmittance",
                  P + "DIDVPriors._threepolescaledadmittance"])
def priors_fit(c):
    """minus the log-likelihood: half the weighted chi2 of the scaled
    admittance plus half the squared distance from the priors"""
    poles = c.choice("poles", [1, 2, 3])
    c.need(DIDVPriors, "_fitdidv")
    mg = Migrad(c)
    n = c.int("n", lo=1)
    f = c.array("freq", n, gen=lambda r, m: r.uniform(-1e5, 1e5, m))
    y = c.array("didv", n, real=False)
    if c.flag("errors given"):
        sr, si = c.array("sr", n, pos=True), c.array("si", n, pos=True)
        sig = sr + 1j * si
    else:
        sr = si = 1
        sig = None
    m = len(ORDER[poles]) + 1
    pri = c.array("priors", m, pos=True)
    w = c.array("weights", (m, m))
    if c.concrete:
        w = w @ w.T
    p0 = [c.real("start%d" % i, nonneg=True) for i in range(m)]
    Y = c.array("Y", n, real=False)
    used = []

    def admittance(freq, **kw):
        """contract of complexadmittance (D02)"""
        used.append(kw)
        c.eq("frequencies of the data", freq, f)
        return 1 * Y
    c.override(B + "complexadmittance", admittance)
    popt, pcov, cost = DIDVPriors._fitdidv(f, y, poles, pri, w, p0, yerr=sig)
    call = mg.calls[-1]
    c.check("the minimiser was run", len(call.ran) == 1)
    c.check("likelihood, not chi2", call.errordef == 0.5)
    for i in range(m):
        c.eq("starting point", call.start[i], p0[i])
        c.eq("best fit", popt[i], call.x[i])
    for i in range(m - 1):
        c.check("no negative circuit parameter", call.limit[i][0] == 0)
        c.check("no upper limit", call.limit[i][1] is None)
    c.check("free time offset", call.limit[m - 1] == (None, None))
    c.eq("covariance", pcov, call.cov)
    p = dict(zip(ORDER[poles], [call.x[i] for i in range(m - 1)]))
    if c.concrete:
        Y = 1 / tes_z(f, p)
        c.assume(np.all(np.isfinite(p["rsh"] * Y)))
        c.assume(p.get("l") != 1 and p["rsh"] + p["rp"] > 0)
    for kw in used:
        c.check("circuit parameters of the model", set(kw) == set(p))
        for k in kw:
            c.eq("circuit parameter " + k, kw[k], p[k])
    d = y - p["rsh"] * Y * np.exp(-2j * np.pi * f * call.x[m - 1])
    r = pri - call.x
    dist = sum(r[i] * w[i, j] * r[j] for i in range(m) for j in range(m))
    c.assume(dist >= 0)         # covariances are positive semidefinite
    if c.concrete:
        c.assume(dist > 1e-6 * np.abs(r) @ np.abs(w) @ np.abs(r))
    chi2 = np.sum(np.real(d)**2 / sr**2 + np.imag(d)**2 / si**2)
    c.eq("minimum of the negative log-likelihood", cost, chi2 / 2 + dist / 2)
    c.frame()


@contract("D09", [P + "DIDVPriors.dofit", P + "DIDVPriors._guessparams",
                  P + "DIDVPriors._fitresult"])
def priors_results(c):
    """known parameters start at their priors; labels of the results"""
    c.need(DIDVPriors, "_fitdidv")
    poles = c.choice("poles", [1, 2, 3])
    n, sg, amp, p, tm, y, sig = one_period(c)
    names = ORDER[poles] + ("dt",)
    m = len(names)
    known = c.choice("known", [0, 1, 2])
    pri = np.array([c.real("prior " + k, pos=True, gen=u(0.01, 1))
                    if (i < 2) == (known == 1) and k != "dt" and known
                    else 0 for i, k in enumerate(names)])
    pcov = c.array("priorscov", (m, m))
    if c.concrete:
        pcov = np.diag(np.asarray(pri, dtype=float)**2 * 0.01)
    # contract of the fit without priors (D05, D06)
    guess = dict((k, c.real("guess " + k, nonzero=True)) for k in names)

    def dofit(self, npoles, fcutoff=np.inf):
        c.check("guess with the same model", npoles == poles)
        c.eq("guess on the same time axis", self._time, obj._time)
        c.eq("guess from the same data", self._didvmean, y)
        c.eq("guess with the same shunt", self._rsh, p["rsh"])
        setattr(self, "_%dpoleresult" % poles, dict(
            params={"dt": guess["dt"]}, smallsignalparams=guess))
    c.override(D + "DIDV.dofit", dofit)
    call = {}
    best = [c.real("best " + k, nonneg=k != "dt") for k in names]
    cov = c.array("cov", (m, m))
    for i in range(m):
        c.assume(cov[i, i] >= 0)
    cost = c.real("cost", nonneg=True)

    def fit(freq, didv, poles, priors, invpriorscov, p0, yerr=None):
        call.update(freq=freq, didv=didv, poles=poles, priors=priors,
                    inv=invpriorscov, p0=p0, yerr=yerr)
        return np.array(best), cov, cost
    c.override(P + "DIDVPriors._fitdidv", fit)
    taus = c.array("taus", poles)
    c.override(B + "_BaseDIDV._findpolefalltimes", lambda params: taus)
    dt0 = c.real("dt0", gen=u(0, 1e-5))
    obj = DIDVPriors(None, n * sg, sg, amp, p["rsh"], dt0=dt0,
                     add180phase=c.flag("add180phase"))
    obj._tmean, obj._didvmean, obj._didvstd = tm, y, sig
    obj._freq = np.fft.fftfreq(n, d=1 / (n * sg))
    obj._time = np.arange(n) / (n * sg) - obj._dt0
    obj._offset, obj._offset_err = 0, 1
    cut = c.real("fcutoff", pos=True, gen=u(50, 1000))
    spied = c.spy(P + "DIDVPriors._fitdidv")
    plain = c.spy(D + "DIDV._fitresult")
    try:
        obj.dofit(poles, pri, pcov, fcutoff=cut)
    except np.linalg.LinAlgError:
        c.assume(False)         # no unique minimum
    except RuntimeError:
        c.assume(not c.concrete)    # no covariance from minuit
    r = obj.fitresult(poles)
    c.check("one entry per parameter", set(r["params"]) == set(names))
    c.check("one error per parameter", set(r["errors"]) == set(names))
    c.eq("priors kept", r["priors"], pri)
    c.eq("covariance of the priors kept", r["priorscov"], pcov)
    if c.concrete:
        best = [r["params"][k] for k in names]
        cov = r["cov"]
    for i, k in enumerate(names):
        c.eq("parameter " + k, r["params"][k], best[i])
        c.eq("error of " + k, r["errors"][k]**2, cov[i, i])
    z0 = tes_z(0, dict(zip(ORDER[poles], best)))
    c.eq("didv(0)", r["didv0"], 1 / z0)
    if c.concrete:
        for call, g in zip(spied, plain):
            c.eq("start of dt", call["p0"][m - 1], g["params"][-1])
            for i in range(m - 1):
                if pri[i] != 0:
                    c.eq("start of " + names[i], call["p0"][i], pri[i])
        return
    keep = np.abs(obj._freq) < cut
    c.eq("frequencies below the cut-off", call["freq"], obj._freq[keep])
    c.eq("scaled admittance", call["didv"], y[keep] * p["rsh"])
    c.eq("scaled errors", call["yerr"], sig[keep] * p["rsh"])
    c.eq("priors", call["priors"], pri)
    for i, k in enumerate(names):
        want = pri[i]
        if want == 0:
            want = guess[k]
            if k != "dt":
                want = abs(want)
        c.eq("start of " + k, call["p0"][i], want)
    W = np.linalg.pinv(pcov)
    for i in range(m):
        for j in range(m):
            c.eq("inverse covariance of the priors", call["inv"][i, j],
                 W[i, j])
    c.eq("covariance", r["cov"], cov)
    c.eq("cost", r["cost"], cost)
    c.eq("fall times", r["falltimes"], taus)
