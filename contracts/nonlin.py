"""Contracts of the nonlinear pulse fits (OFnonlin, MuonTailFit)."""
import numpy as np
from contracts.base import contract
from qetpy.core import _fitting as fit

O = "qetpy.core._fitting:OFnonlin."
M = "qetpy.core._fitting:MuonTailFit."


def u(lo, hi):
    return lambda r: r.uniform(lo, hi)


def sampling(c):
    n = c.int("n", lo=1, hi=None if not c.concrete else 40)
    fs = c.real("fs", pos=True, gen=u(1, 10))
    psd = c.array("psd", n, pos=True, gen=lambda r, m: r.uniform(.5, 2, m))
    return n, fs, psd


def times(c, m):
    """rise time and fall times"""
    t = [c.real("tau%d" % i, pos=True, gen=u(.3 + i, 1.2 + i))
         for i in range(m)]
    if c.concrete and m == 2 and c.flag("fall before rise"):
        t = t[::-1]
    c.assume(t[0] != t[1])
    return t


def amplitudes(c, m):
    return [c.real("A%d" % i, gen=u(-2, 2)) for i in range(m)]


def peak(c, tr, tf):
    """maximum of exp(-t/tf) - exp(-t/tr)"""
    r, d = tr / tf, tr - tf
    at_f, at_r = r**(-tr / d), r**(-tf / d)     # the exponentials there
    if not c.concrete:
        # lemma: the exponents differ by one
        c.assume(at_r == r * at_f)
        c.assume(at_f > 0)
    return at_f - at_r


def two_scaled(c, A, tr, tf):
    return A / peak(c, tr, tf)


@contract("C12", [O + m for m in (
    "__init__", "fourpole", "threepole", "twopole", "onepole")])
def pulse_spectra(c):
    n, fs, psd = sampling(c)
    o = fit.OFnonlin(psd, fs)
    m = c.choice("model", ["two scaled", "one scaled", "two", "one", "three",
                           "four"])
    poles = dict(four=3, three=2).get(m, 1)
    tau = times(c, poles + 1)
    amp = amplitudes(c, poles)
    t0 = c.real("t0", gen=u(-9, 9))
    k = c.index("k", n)
    w = 2 * np.pi * np.fft.fftfreq(n, d=1 / fs)[k]
    scaled = "scaled" in m
    o.scale_amplitude = scaled
    if poles == 3:
        got = o.fourpole(*amp, *tau, t0)
    elif poles == 2:
        got = o.threepole(*amp, *tau, t0)
    elif "two" in m:
        got = o.twopole(*amp, *tau, t0)
    else:
        o.taurise = tau[0]
        got = o.onepole(amp[0], tau[1], t0)

    def line(t):
        return t / (1 + 1j * w * t)
    scale = 1
    if scaled:
        scale = 1 / peak(c, *tau)
    want = sum(a * line(t) for a, t in zip(amp, tau[1:])) \
        - sum(amp) * line(tau[0])
    c.check("length", len(got) == n)
    c.eq("Fourier transform of the pulse", got[k],
         scale * want * np.exp(-1j * w * t0) * np.sqrt(fs / n))
    c.frame()


@contract("C12", [O + m for m in (
    "__init__", "fourpoletime", "threepoletime", "twopoletime")])
def pulse_samples(c):
    n, fs, psd = sampling(c)
    o = fit.OFnonlin(psd, fs)
    m = c.choice("model", ["two scaled", "two", "three", "four"])
    poles = dict(four=3, three=2).get(m, 1)
    tau = times(c, poles + 1)
    amp = amplitudes(c, poles)
    s = c.int("first sample", lo=None if not c.concrete else -3,
              hi=None if not c.concrete else n + 1)
    t0 = s / fs
    k = c.index("k", n)
    o.scale_amplitude = scaled = "scaled" in m
    moved = c.fresh_array("moved", n)
    calls = []

    def shift(arr, num, fill_value=0):
        # contract of shift (U01)
        calls.append(num)
        if not c.both(k - num >= 0, k - num < n):
            c.assume(moved[k] == fill_value)
        else:
            c.assume(moved[k] == arr[k - num])
        return moved
    c.override("qetpy.core._fitting:shift", shift)
    if poles == 3:
        got = o.fourpoletime(*amp, *tau, t0)
    elif poles == 2:
        got = o.threepoletime(*amp, *tau, t0)
    else:
        got = o.twopoletime(*amp, *tau, t0)
    t = (k - s) / fs
    scale = 1
    if scaled:
        scale = 1 / peak(c, *tau)
    c.check("length", len(got) == n)
    if k < s:
        c.eq("nothing before the start", got[k], 0)
    elif k - s < n:
        c.eq("sum of exponentials that starts at zero", got[k], scale * (
            sum(a * np.exp(-t / x) for a, x in zip(amp, tau[1:]))
            - sum(amp) * np.exp(-t / tau[0])))
    c.frame()


class Res(dict):
    """optimiser result: attribute and item access"""

    def __getattr__(self, k):
        return self[k]


class LeastSquares:
    """contract of scipy.optimize.least_squares: bounds in order, a starting
    point within, positive scales; returns some point within the bounds with
    its Jacobian"""

    def __init__(self, c):
        self.c = c
        self.ok = c.real("converged") > 0
        self.calls = []
        self.nonzero = None         # parameters that are scales
        c.stub("scipy.optimize.least_squares", self.fit)

    def fit(self, fun, x0, jac="2-point", bounds=(-np.inf, np.inf),
            method="trf", ftol=1e-8, xtol=1e-8, gtol=1e-8, x_scale=1.0,
            loss="linear", **kw):
        c = self.c
        m = len(x0)
        x0 = [x0[i] for i in range(m)]
        if self.nonzero:
            for i in self.nonzero:
                c.assume(x0[i] != 0)
        lo = [bounds[0][i] for i in range(m)]
        hi = [bounds[1][i] for i in range(m)]
        for i in range(m):
            c.check("bounds in order", lo[i] < hi[i])
            c.check("starting point within the bounds",
                    c.both(lo[i] <= x0[i], x0[i] <= hi[i]))
            c.check("positive scale", x_scale[i] > 0)
        c.check("plain sum of squares", loss == "linear")
        x = [c.fresh_real("x%d" % i) for i in range(m)]
        rows = c.int("rows", lo=m)
        r = Res(x=np.array(x), success=self.ok, cost=c.real("cost"),
                jac=c.fresh_array("jac", (rows, m)))
        self.calls.append((fun, x0, lo, hi, r))
        return r


NPAR = {1: 3, 2: 4, 3: 6, 4: 8}
NAMP = {1: 1, 2: 1, 3: 2, 4: 3}


class Models:
    """the spectra by their contract (C12): functions of the parameters"""

    def __init__(self, c, cls, n, names):
        self.c, self.n, self.cache = c, n, []
        for k in names:
            c.override(cls + k, self.model(k))

    def model(self, name):
        def f(o, *p):
            key = (name, repr(getattr(o, "scale_amplitude", None)),
                   tuple(repr(x) for x in p))
            for k, a in self.cache:
                if k == key:
                    return 1 * a
            a = self.c.fresh_array("model%d" % len(self.cache), self.n,
                                   real=False)
            self.cache.append((key, a))
            return 1 * a
        return f


def chi2(o, data, psd, poles, errscale, trial):
    """weighted sum of squares of the model with parameters `trial`"""
    model = (o.onepole, o.twopole, o.threepole, o.fourpole)[poles - 1](*trial)
    return np.sum(abs(data - model)**2 * errscale / psd)


@contract("C13", [O + m for m in ("__init__", "fit_falltimes", "residuals",
                                  "calcchi2")])
def pulse_fit(c):
    n = c.int("n", lo=9, hi=None if not c.concrete else 40)
    fs = c.real("fs", pos=True, gen=u(4e3, 9e3))
    c.assume(fs > 3400)     # the fall time is looked for within 300 us
    psd = c.array("psd", n, pos=True, gen=lambda r, m: r.uniform(.5, 2, m))
    y = c.array("pulse", n)
    es = c.real("errscale", pos=True, gen=u(1, 9))
    poles = c.choice("poles", [1, 2, 3, 4])
    o = fit.OFnonlin(psd, fs)
    m, na = NPAR[poles], NAMP[poles]
    kw = dict(npolefit=poles, errscale=es)
    p0 = [c.real("amplitude guess %d" % i, gen=u(-2, 2)) for i in range(na)]
    for a in p0:
        c.assume(a != 0)
    p0 += [c.real("time guess %d" % i, pos=True, gen=u(1e-5, 1e-3))
           for i in range(m - na - 1)]
    p0.append(c.real("t0 guess", gen=lambda r: r.choice(
        [0, r.uniform(-1, 1) * 1e-3])))
    if poles == 1:
        kw["taurise"] = c.real("rise time", pos=True, gen=u(1e-5, 1e-4))
        c.assume(kw["taurise"] != p0[1])
    ls = LeastSquares(c)
    Models(c, O, n, ("twopole", "threepole", "fourpole"))
    if poles < 3:
        scaled = c.flag("pulse height")
        kw["scale_amplitude"] = scaled
    lo = [g - c.real("below %d" % i, pos=True) for i, g in enumerate(p0)]
    hi = [g + c.real("above %d" % i, pos=True) for i, g in enumerate(p0)]
    own = c.flag("bounds given")
    if own:
        kw["bounds"] = (lo, hi)
    r = o.fit_falltimes(y, guess=p0, lgcfullrtn=True, **kw)
    c.check("one fit", len(ls.calls) == 1)
    fun, x0, l, h, res = ls.calls[0]
    for i in range(m):
        g = p0[i]
        c.eq("starts from the guess", x0[i], g)
        if own:
            w = lo[i], hi[i]
        elif i == m - 1:
            w = g - 30 / fs, g + 30 / fs
        else:
            q = 100 if i < na else 10
            w = np.minimum(g / q, g * q), np.maximum(g / q, g * q)
        c.eq("lower bound", l[i], w[0])
        c.eq("upper bound", h[i], w[1])
    # what is minimised
    o2 = fit.OFnonlin(psd, fs)
    if poles < 3:
        o2.scale_amplitude = scaled
        o2.taurise = kw.get("taurise")
    D = np.fft.fft(y) / np.sqrt(fs * n)
    S = np.where(np.arange(n) == 0, 1e40, psd)
    trial = [c.real("trial %d" % i, pos=True, gen=u(.2 + i, 1 + i))
             for i in range(m)]
    c.eq("weighted residuals", np.sum(fun(np.array(trial))**2),
         chi2(o2, D, S, poles, es, trial))
    x = [res["x"][i] for i in range(m)]
    var, err, cov, red, ok = r
    for i in range(m):
        c.eq("parameters of the minimum", var[i], x[i])
    C = np.linalg.pinv(np.dot(np.transpose(res["jac"]), res["jac"]))
    i, j = c.index("i", m), c.index("j", m)
    c.eq("covariance", cov[i, j], C[i, j])
    c.eq("errors", err[i]**2, C[i, i])
    c.eq("reduced chi square", red * (n - m),
         chi2(o2, D, S, poles, es, x))
    c.check("success flag", c.either(c.both(ok, ls.ok),
                                     c.neg(c.either(ok, ls.ok))))
    c.frame()


@contract("C13", [O + m for m in ("__init__", "fit_falltimes")])
def pulse_fit_arguments(c):
    n, fs, psd = sampling(c)
    y = c.array("pulse", n)
    o = fit.OFnonlin(psd, fs)
    poles = c.choice("poles", [1, 2, 3, 4])
    m = c.choice("parameters of the guess", [1, 2, 3, 4, 5, 6, 7, 8, 9])
    p0 = [c.real("guess %d" % i, pos=True) for i in range(m)]
    if m != NPAR[poles]:
        e, _ = c.raises(lambda: o.fit_falltimes(
            y, npolefit=poles, guess=p0, taurise=.1), ValueError)
        c.check("wrong number of parameters", e is not None)
    if poles == 1:
        e, _ = c.raises(lambda: o.fit_falltimes(y, guess=p0), ValueError)
        c.check("the rise time is required for one pole", e is not None)
    c.frame()


@contract("C13", [O + m for m in ("__init__", "fit_falltimes")])
def pulse_fit_start(c):
    """the automatic guess is a valid start for the fit"""
    n = c.int("n", lo=2, hi=None if not c.concrete else 40)
    fs = c.real("fs", pos=True, gen=u(4e3, 3e4))
    c.assume(fs > 3400)     # the fall time is looked for within 300 us
    psd = c.array("psd", n, pos=True, gen=lambda r, m: r.uniform(.5, 2, m))
    y = c.array("pulse", n)
    top = y
    if c.flag("template"):
        top = tmpl = c.array("template", n)
        o = fit.OFnonlin(psd, fs, template=tmpl)
    else:
        o = fit.OFnonlin(psd, fs)
    peak = np.argmax(top)
    c.assume(peak < n - 1)
    c.assume(np.max(y) > np.min(y))
    poles = c.choice("poles", [1, 2, 3, 4])
    m, na = NPAR[poles], NAMP[poles]
    ls = LeastSquares(c)
    ls.nonzero = range(na)
    Models(c, O, n, ("twopole", "threepole", "fourpole"))
    r = o.fit_falltimes(y, npolefit=poles, taurise=20e-6)
    _, x0, lo, hi, res = ls.calls[0]
    c.check("number of parameters", len(x0) == m)
    c.eq("starts at the maximum", x0[m - 1], peak / fs)
    for i in range(na, m - 1):
        c.check("times are positive", c.both(x0[i] > 0, lo[i] > 0))
    for i in range(m):
        c.eq("only the parameters", r[i], res["x"][i])
    c.frame()


@contract("C14", [M + m for m in ("__init__", "muontailfcn")])
def muon_spectrum(c):
    n, fs, psd = sampling(c)
    o = fit.MuonTailFit(psd, fs)
    A, tau = c.real("A", gen=u(-2, 2)), c.real("tau", pos=True, gen=u(.3, 3))
    k = c.index("k", n)
    w = 2 * np.pi * np.fft.fftfreq(n, d=1 / fs)[k]
    got = o.muontailfcn(A, tau)
    c.check("length", len(got) == n)
    c.eq("Fourier transform of an exponential", got[k] * (1 + 1j * w * tau),
         A * tau * np.sqrt(fs / n))
    c.frame()


@contract("C14", [M + m for m in ("__init__", "fitmuontail", "residuals",
                                  "calcchi2")])
def muon_fit(c):
    n = c.int("n", lo=2, hi=None if not c.concrete else 40)
    fs = c.real("fs", pos=True, gen=u(1, 10))
    psd = c.array("psd", n, pos=True, gen=lambda r, m: r.uniform(.5, 2, m))
    y = c.array("signal", n)
    if c.concrete:
        y = y - c.choice("offset", [0, 3, -3])
    c.assume(np.max(y) > np.min(y))
    es = c.real("errscale", pos=True, gen=u(1, 9))
    o = fit.MuonTailFit(psd, fs)
    ls = LeastSquares(c)
    Models(c, M, n, ("muontailfcn",))
    full = c.flag("everything returned")
    r = o.fitmuontail(y, lgcfullrtn=full, errscale=es)
    c.check("one fit", len(ls.calls) == 1)
    fun, x0, lo, hi, res = ls.calls[0]
    for i in range(2):
        c.eq("positive", lo[i], 0)
    c.eq("starts from the height of the trace", x0[0], np.max(y) - np.min(y))
    D = np.fft.fft(y) / np.sqrt(fs * n)

    def chi(p):
        return np.sum(abs(D - o.muontailfcn(*p))**2 * es / psd)
    trial = [c.real("trial %d" % i, pos=True, gen=u(.2 + i, 1 + i))
             for i in range(2)]
    c.eq("weighted residuals", np.sum(fun(np.array(trial))**2), chi(trial))
    x = [res["x"][0], res["x"][1]]
    var = r[0] if full else r
    for i in range(2):
        c.eq("parameters of the minimum", var[i], x[i])
    if full:
        _, err, cov, chi2 = r
        C = np.linalg.pinv(np.dot(np.transpose(res["jac"]), res["jac"]))
        for i in range(2):
            c.eq("errors", err[i]**2, C[i, i])
            for j in range(2):
                c.eq("covariance", cov[i, j], C[i, j])
        c.eq("chi square", chi2, chi(x))
    c.frame()
