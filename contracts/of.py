"""Contracts of the optimum-filter code (qetpy/core/_fitting.py)."""
import numpy as np
from contracts.base import contract
from qetpy.core import _fitting as fitting
from qetpy.core._fitting import OptimumFilter

M = "qetpy.core._fitting:"


def weights(psd, coupling):
    """1/J with the DC bin removed for AC coupling"""
    w = 1 / psd
    if coupling == "AC":
        w[0] = 0
    return w


def spectra(sig, tem, fs, n):
    """one-sided convention of the package: fft / n / df"""
    df = fs / n
    return np.fft.fft(sig) / n / df, np.fft.fft(tem) / n / df, df


def chi2_at(c, v, s, w, df, n, a, m):
    """weighted residual for amplitude a at integer delay m (bins)"""
    k = np.arange(n)
    ph = np.exp(-2j * np.pi * k * m / n)
    return np.sum(np.abs(v - a * s * ph)**2 * w) * df


def inputs(c, lo=2):
    n = c.int("n", lo=lo)
    fs = c.real("fs", pos=True)
    sig = c.array("signal", n)
    tem = c.array("template", n)
    psd = c.array("psd", n, pos=True)
    coupling = c.choice("coupling", ["AC", "DC"])
    return n, fs, sig, tem, psd, coupling


@contract("C01", [M + "OptimumFilter.__init__",
                  M + "OptimumFilter.ofamp_nodelay"])
def nodelay(c):
    n, fs, sig, tem, psd, coupling = inputs(c)
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    if c.flag("shifted"):
        m = c.int("windowcenter")
        amp, chi2 = of.ofamp_nodelay(windowcenter=m)
    else:
        m = 0
        amp, chi2 = of.ofamp_nodelay()
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling)
    c.eq("chi2 is the weighted residual at (amp, delay)", chi2,
         chi2_at(c, v, s, w, df, n, amp, m), scale=np.sum(abs(v)**2 * w) * df)
    a2 = c.real("other amplitude")
    norm = np.sum(abs(s)**2 * w) * df
    c.eq("completing the square", chi2_at(c, v, s, w, df, n, a2, m),
         chi2 + (a2 - amp)**2 * norm, scale=np.sum(abs(v)**2 * w) * df)
    c.check("normalisation is non-negative", norm >= 0)
    c.frame()
    c.cover("done")


def window(c, n, nconstrain, wc, outside):
    """boolean array over the rolled bins: the delays that are allowed"""
    j = np.arange(n)
    if nconstrain is None:
        return np.ones(n, dtype=bool)
    d = j - n // 2 - wc
    ins = (d >= -(nconstrain // 2)) & (d < nconstrain - nconstrain // 2)
    return ~ins if outside else ins


def constraints(c, n, center=True):
    """window arguments as a user may give them"""
    wc = 0 if not center else c.int("windowcenter", gen=lambda r: r.integers(-int(n) // 2,
                                                        int(n) // 2 + 1))
    if center:
        c.assume(wc >= -(n // 2))
        c.assume(wc <= n // 2 - (n + 1) % 2)
    if c.flag("constrained"):
        nc = c.int("nconstrain", lo=1)
        eff = nc
        if nc > n:
            eff = n
    else:
        nc = eff = None
    outside = c.flag("outside")
    return nc, eff, outside, wc


def best_amps(v, s, w, df, n):
    """best-fit amplitude at every rolled delay bin j (delay j - n//2)"""
    norm = np.sum(abs(s)**2 * w) * df
    a = np.real(np.fft.ifft(s.conjugate() * v * w)) * n * df / norm
    return np.roll(a, n // 2), norm


def allowed(c, n, nconstrain, outside, mask, wc):
    """delays the documented constraints allow (window and mask)"""
    eff = nconstrain
    if nconstrain is not None and nconstrain > n:
        eff = n
    ok = window(c, n, eff, wc, outside)
    return ok if mask is None else ok & mask


def argmin_contract(c, ghost=None):
    """contract of _argmin_chi2 (proved in argmin_*), used by its callers"""
    def _argmin_chi2(chi2, nconstrain=None, lgcoutsidewindow=False,
                     constraint_mask=None, windowcenter=0):
        n = chi2.shape[-1]
        if windowcenter < -(n // 2) or \
                windowcenter > n // 2 - (n + 1) % 2:
            raise ValueError("windowcenter")
        if nconstrain is not None and nconstrain <= 0:
            raise ValueError("nconstrain")
        ok = allowed(c, n, nconstrain, lgcoutsidewindow, constraint_mask,
                     windowcenter)
        if chi2.ndim == 2:
            # contract used where a delay is allowed in every row; minimality
            # is stated for the row the harness picked arbitrarily
            c.check("some delay is allowed (precondition for rows)",
                    np.any(ok))
            r = chi2.shape[0]
            b = c.fresh_array("bestind", r, dtype="i", lo=0, hi=n - 1)
            c.assume_all(r, lambda i: ok[b[i]])
            i = ghost["row"]
            best = chi2[i, b[i]]
            c.term(b[i])
            c.assume_all(n, lambda j: c.implies(ok[j], best <= chi2[i, j]))
            return b
        if np.any(ok):
            b = c.int("bestind", lo=0)
            c.assume(b < n)
            c.assume(ok[b])
            best = chi2[b]
            c.term(b)
            c.assume_all(n, lambda j: c.implies(ok[j], best <= chi2[j]))
            return b
        return np.nan
    c.override(M + "_argmin_chi2", _argmin_chi2)


@contract("C02", [M + "OptimumFilter.ofamp_withdelay", M + "_argmin_chi2",
                  M + "_get_pulse_direction_constraint_mask"],
          split={"polarity": 3})
def withdelay(c):
    n, fs, sig, tem, psd, coupling = inputs(c)
    argmin_contract(c)
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    nc, eff, outside, wc = constraints(c, n)
    pol = c.choice("polarity", [0, 1, -1])
    amp, t0, chi2 = of.ofamp_withdelay(
        nconstrain=nc, lgcoutsidewindow=outside,
        pulse_direction_constraint=pol, windowcenter=wc)
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling)
    chi0 = np.sum(abs(v)**2 * w) * df
    amps, norm = best_amps(v, s, w, df, n)
    ok = window(c, n, eff, wc, outside)
    if pol != 0:
        ok = ok & (pol * amps > 0)
    if np.any(ok):
        c.cover("fit")
        m = c.to_int("t0 is a whole number of samples", t0 * fs)
        j = m + n // 2
        c.check("t0 lies inside the trace", (j >= 0) & (j < n))
        c.check("t0 is an allowed delay", ok[j])
        c.eq("chi2 is the weighted residual at (amp, t0)", chi2,
             chi2_at(c, v, s, w, df, n, amp, m), scale=chi0)
        k = c.index("any delay", n)
        c.check("no allowed delay has a smaller residual", c.implies(
            ok[k], c.leq(chi2, chi2_at(c, v, s, w, df, n, amps[k],
                                       k - n // 2), scale=chi0)))
    else:
        c.cover("no fit")
        c.eq("amplitude zero without allowed delay", amp, 0)
        c.eq("time zero without allowed delay", t0, 0)
        c.eq("chi2 is the no-pulse chi2 without allowed delay", chi2, chi0)
    c.frame()


def _spec_argmin(c, chi2, best, ok, n):
    if np.any(ok):
        c.cover("found")
        c.check("a delay is returned", c.neg(np.isnan(best)))
        c.check("index inside the array", c.both(best >= 0, best < n))
        c.check("returned index is allowed", ok[best])
        k = c.index("any index", n)
        c.check("no allowed index has a smaller value",
                c.implies(ok[k], chi2[best] <= chi2[k]))
    else:
        c.cover("none")
        c.check("NaN when nothing is allowed", np.isnan(best))
    c.frame()


@contract("C03", [M + "_argmin_chi2"], grid=True, covers=["found"],
          split={"masked": 2, "constrained": 2, "outside": 2})
def argmin_window(c):
    """1-D chi2, every window, with and without a mask"""
    n = c.int("n", lo=1)
    chi2 = c.array("chi2", n)
    mask = c.array("mask", n, dtype="b") if c.flag("masked") else None
    nc, eff, outside, wc = constraints(c, n)
    best = fitting._argmin_chi2(
        chi2, nconstrain=nc, lgcoutsidewindow=outside,
        constraint_mask=mask, windowcenter=wc)
    ok = window(c, n, eff, wc, outside)
    if mask is not None:
        ok = ok & mask
    _spec_argmin(c, chi2, best, ok, n)


@contract("C03", [M + "_argmin_chi2"], grid=True)
def argmin_rejects(c):
    """invalid windows are refused"""
    n = c.int("n", lo=1)
    chi2 = c.array("chi2", n)
    wc = c.int("windowcenter")
    nc = c.int("nconstrain")
    bad_wc = c.either(wc < -(n // 2), wc > n // 2 - (n + 1) % 2)
    err, _ = c.raises(lambda: fitting._argmin_chi2(chi2, windowcenter=wc),
                      ValueError)
    c.check("windowcenter outside the trace is refused, inside accepted",
            (err is not None) == bad_wc)
    err, _ = c.raises(lambda: fitting._argmin_chi2(chi2, nconstrain=nc),
                      ValueError)
    c.check("non-positive nconstrain is refused", (err is not None) ==
            (nc <= 0))
    pol = c.int("polarity")
    err, m = c.raises(lambda: fitting._get_pulse_direction_constraint_mask(
        chi2, pulse_direction_constraint=pol), ValueError)
    c.check("polarity other than -1, 0, 1 is refused",
            (err is not None) == c.either(pol < -1, pol > 1))


@contract("C03", [M + "_argmin_chi2"], grid=True, covers=["found"])
def argmin_rows(c):
    """2-D chi2: each row is minimised over the same allowed delays"""
    r = c.int("rows", lo=1)
    n = c.int("n", lo=1)
    chi2 = c.array("chi2", (r, n))
    nc, eff, outside, wc = constraints(c, n)
    ok = window(c, n, eff, wc, outside)
    c.assume(np.any(ok))
    best = fitting._argmin_chi2(
        chi2, nconstrain=nc, lgcoutsidewindow=outside, windowcenter=wc)
    i = c.index("row", r)
    c.check("one index per row", best.shape[0] == r)
    _spec_argmin(c, chi2[i], best[i], ok, n)


@contract("C05", [M + "ofamp"], covers=["delay", "nodelay"])
def ofamp_rows(c):
    """functional optimum filter on a stack of traces"""
    n, fs, _, tem, psd, coupling = inputs(c)
    r = c.int("rows", lo=2)
    sig = c.array("signals", (r, n))
    i = c.index("row", r)
    argmin_contract(c, {"row": i})
    sigma = None
    if c.flag("withdelay"):
        c.cover("delay")
        nc, eff, outside, _ = constraints(c, n, center=False)
        ok = window(c, n, eff, 0, outside)
        c.assume(np.any(ok))
        amp, t0, chi2 = fitting.ofamp(
            sig, tem, psd, fs, coupling=coupling, nconstrain=nc,
            lgcoutsidewindow=outside)
        m = c.to_int("t0 is a whole number of samples", t0[i] * fs)
    else:
        c.cover("nodelay")
        ok = None
        amp, t0, chi2, sigma = fitting.ofamp(
            sig, tem, psd, fs, coupling=coupling, withdelay=False,
            lgcsigma=True)
        c.eq("no delay means t0 = 0", t0, np.zeros(r))
        m = 0
    c.check("one result per trace", amp.shape[0] == r)
    v, s, df = spectra(sig[i], tem, fs, n)
    w = weights(psd, coupling)
    chi0 = np.sum(abs(v)**2 * w) * df
    amps, norm = best_amps(v, s, w, df, n)
    j = m + n // 2
    c.eq("amplitude is the best-fit amplitude at t0", amp[i], amps[j])
    c.eq("chi2 is the weighted residual at (amp, t0)", chi2[i],
         chi2_at(c, v, s, w, df, n, amp[i], m), scale=chi0)
    if ok is not None:
        c.check("t0 is an allowed delay", ok[j])
        k = c.index("any delay", n)
        c.check("no allowed delay has a smaller residual", c.implies(
            ok[k], c.leq(chi2[i], chi2_at(c, v, s, w, df, n, amps[k],
                                          k - n // 2), scale=chi0)))
    else:
        c.eq("sigma", sigma**2 * norm, 1)
    c.frame()


@contract("C05", [M + "ofamp", M + "OptimumFilter.ofamp_withdelay",
                  M + "OptimumFilter.ofamp_nodelay"])
def ofamp_single(c):
    """the function and the class agree on one trace"""
    n, fs, sig, tem, psd, coupling = inputs(c)
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    if c.flag("withdelay"):
        nc, eff, outside, _ = constraints(c, n, center=False)
        c.assume(np.any(window(c, n, eff, 0, outside)))
        r1 = of.ofamp_withdelay(nconstrain=nc, lgcoutsidewindow=outside)
        r2 = fitting.ofamp(sig, tem, psd, fs, coupling=coupling,
                           nconstrain=nc, lgcoutsidewindow=outside)
    else:
        a, chi2 = of.ofamp_nodelay()
        r1 = a, 0, chi2
        r2 = fitting.ofamp(sig, tem, psd, fs, coupling=coupling,
                           withdelay=False)
    chi0 = of.chi2_nopulse()
    c.eq("amplitude", r2[0], r1[0])
    c.eq("time", r2[1], r1[1])
    c.eq("chi2", r2[2], r1[2], scale=chi0)
    c.eq("chi2 without a pulse",
         fitting.chi2_nopulse(sig, psd, fs, coupling=coupling), chi0)
    c.frame()


def phase(fs, n, t):
    """Fourier phase of a pulse at time t (any real time)"""
    return np.exp(-2j * np.pi * np.fft.fftfreq(n, d=1 / fs) * t)


def bins(m, n):
    k = np.arange(n)
    return np.exp(-2j * np.pi * k * m / n)


def resid(v, model, w, df):
    return np.sum(np.abs(v - model)**2 * w) * df


def choose_delay(c, n, nc, eff, outside, wc, sign_ok):
    ok = window(c, n, eff, wc, outside)
    return ok if sign_ok is None else ok & sign_ok


@contract("C07", [M + "OptimumFilter.ofamp_pileup_iterative"],
          covers=["fit", "no fit"], split={"polarity": 3})
def pileup_iterative(c):
    """second pulse next to a given first pulse (any amplitude, any time)"""
    n, fs, sig, tem, psd, coupling = inputs(c)
    argmin_contract(c)
    a1 = c.real("a1")
    t1 = c.real("t1")
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    nc, eff, outside, wc = constraints(c, n)
    pol = c.choice("polarity", [0, 1, -1])
    a2, t2, chi2 = of.ofamp_pileup_iterative(
        a1, t1, nconstrain=nc, lgcoutsidewindow=outside,
        pulse_direction_constraint=pol, windowcenter=wc)
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling)
    first = a1 * s * phase(fs, n, t1)
    chi0 = np.sum(abs(v)**2 * w) * df
    norm = np.sum(abs(s)**2 * w) * df
    amps = np.roll(np.real(np.fft.ifft(s.conjugate() * (v - first) * w))
                   * n * df / norm, n // 2)
    ok = window(c, n, eff, wc, outside)
    if pol != 0:
        ok = ok & (pol * amps > 0)
    if np.any(ok):
        c.cover("fit")
        m = c.to_int("t2 is a whole number of samples", t2 * fs)
        j = m + n // 2
        c.check("t2 lies inside the trace", (j >= 0) & (j < n))
        c.check("t2 is an allowed delay", ok[j])
        c.eq("chi2 is the residual of the two-pulse model", chi2,
             resid(v, first + a2 * s * bins(m, n), w, df), scale=chi0)
        k = c.index("any delay", n)
        c.check("no allowed delay has a smaller residual", c.implies(
            ok[k], c.leq(chi2, resid(
                v, first + amps[k] * s * bins(k - n // 2, n), w, df),
                scale=chi0)))
    else:
        c.cover("no fit")
        c.eq("no second pulse: amplitude", a2, 0)
        c.eq("no second pulse: time", t2, 0)
        c.eq("no second pulse: chi2 of the first pulse alone", chi2,
             resid(v, first, w, df), scale=chi0)
    c.frame()


@contract("C07", [M + "ofamp_pileup"], covers=["given", "found"])
def pileup_function(c):
    """functional form; first pulse given or found by ofamp"""
    n, fs, sig, tem, psd, coupling = inputs(c)
    argmin_contract(c, {"row": 0})
    nc, eff, outside, _ = constraints(c, n, center=False)
    ok = window(c, n, eff, 0, outside)
    c.assume(np.any(ok))
    if c.flag("given"):
        c.cover("given")
        a1_ = c.real("a1")
        t1_ = c.real("t1")
        a1, t1, a2, t2, chi2 = fitting.ofamp_pileup(
            sig, tem, psd, fs, a1=a1_, t1=t1_, coupling=coupling,
            nconstrain2=nc, lgcoutsidewindow=outside)
        c.eq("given first amplitude is used", a1, a1_)
        c.eq("given first time is used", t1, t1_)
    else:
        c.cover("found")
        a1, t1, a2, t2, chi2 = fitting.ofamp_pileup(
            sig, tem, psd, fs, coupling=coupling, nconstrain2=nc,
            lgcoutsidewindow=outside)
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling)
    chi0 = np.sum(abs(v)**2 * w) * df
    norm = np.sum(abs(s)**2 * w) * df
    first = a1 * s * phase(fs, n, t1)
    m = c.to_int("t2 is a whole number of samples", t2 * fs)
    c.check("t2 is an allowed delay", ok[m + n // 2])
    c.eq("chi2 is the residual of the two-pulse model", chi2,
         resid(v, first + a2 * s * bins(m, n), w, df), scale=chi0)
    amps = np.roll(np.real(np.fft.ifft(s.conjugate() * (v - first) * w))
                   * n * df / norm, n // 2)
    k = c.index("any delay", n)
    c.check("no allowed delay has a smaller residual", c.implies(
        ok[k], c.leq(chi2, resid(
            v, first + amps[k] * s * bins(k - n // 2, n), w, df),
            scale=chi0)))
    c.frame()


def _stationary_spec(c, n, fs, sig, tem, psd, coupling, ok, a1, a2, t2, chi2):
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling)
    chi0 = np.sum(abs(v)**2 * w) * df
    m = c.to_int("t2 is a whole number of samples", t2 * fs)
    j = m + n // 2
    c.check("t2 is an allowed delay", ok[j])
    c.eq("chi2 is the residual of the two-pulse model", chi2,
         resid(v, a1 * s + a2 * s * bins(m, n), w, df), scale=chi0)
    # normal equations of the (convex) least-squares problem in (a1, a2)
    left = (v - a1 * s - a2 * s * bins(m, n)) * w
    sc = np.sqrt(chi0 * np.sum(abs(s)**2 * w) / df)
    c.eq("a1 is optimal", np.sum(np.real(left * s.conjugate())), 0, scale=sc)
    c.eq("a2 is optimal", np.sum(np.real(
        left * (s * bins(m, n)).conjugate())), 0, scale=sc)


def distinct(fs, n, tem, psd, coupling):
    """the template is not a multiple of itself at any other delay"""
    _, s, df = spectra(tem, tem, fs, n)
    w = weights(psd, coupling)
    o = np.real(np.fft.ifft(abs(s)**2 * w)) * n
    return (abs(o[1:]) < (1 - 1e-3) * o[0]) & (o[0] > 0)


@contract("C08", [M + "OptimumFilter.ofamp_pileup_stationary"],
          assumes=["stationary pileup: the template is not a multiple of "
                   "itself at any other delay (norm^2 != overlap^2)"],
          split={"coupling": 2, "outside": 2})
def stationary(c):
    n, fs, sig, tem, psd, coupling = inputs(c)
    argmin_contract(c)
    nc, eff, outside, wc = constraints(c, n)
    ok = window(c, n, eff, wc, outside)
    c.assume(np.any(ok))
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    c.regular(lambda: distinct(fs, n, tem, psd, coupling))
    a1, a2, t2, chi2 = of.ofamp_pileup_stationary(
        nconstrain=nc, lgcoutsidewindow=outside, windowcenter=wc)
    _stationary_spec(c, n, fs, sig, tem, psd, coupling, ok, a1, a2, t2, chi2)
    c.frame()


@contract("C08", [M + "ofamp_pileup_stationary"],
          assumes=["stationary pileup: the template is not a multiple of "
                   "itself at any other delay (norm^2 != overlap^2)"],
          split={"coupling": 2, "outside": 2})
def stationary_function(c):
    n, fs, sig, tem, psd, coupling = inputs(c)
    argmin_contract(c)
    nc, eff, outside, _ = constraints(c, n, center=False)
    ok = window(c, n, eff, 0, outside)
    c.assume(np.any(ok))
    c.regular(lambda: distinct(fs, n, tem, psd, coupling))
    a1, a2, t2, chi2 = fitting.ofamp_pileup_stationary(
        sig, tem, psd, fs, coupling=coupling, nconstrain=nc,
        lgcoutsidewindow=outside)
    _stationary_spec(c, n, fs, sig, tem, psd, coupling, ok, a1, a2, t2, chi2)
    c.frame()


OPS = ["nodelay", "withdelay", "iterative", "stationary", "baseline",
       "nopulse", "lowfreq", "energy", "time"]


def run_op(of, op, a):
    """one public fit or figure of merit with the arguments a"""
    win = dict(nconstrain=a["nc"], lgcoutsidewindow=a["outside"],
               windowcenter=a["wc"])
    if op == "nodelay":
        return of.ofamp_nodelay(windowcenter=a["wc"])
    if op == "withdelay":
        return of.ofamp_withdelay(pulse_direction_constraint=a["pol"],
                                  interpolate_t0=a["interp"], **win)
    if op == "iterative":
        return of.ofamp_pileup_iterative(
            a["a1"], a["t1"], pulse_direction_constraint=a["pol"],
            interpolate_t0=a["interp"], **win)
    if op == "stationary":
        return of.ofamp_pileup_stationary(**win)
    if op == "baseline":
        return of.ofamp_baseline(pulse_direction_constraint=a["pol"],
                                 interpolate_t0=a["interp"], **win)
    if op == "nopulse":
        return of.chi2_nopulse()
    if op == "lowfreq":
        return of.chi2_lowfreq(a["a1"], a["t1"], fcutoff=a["fc"])
    if op == "energy":
        return of.energy_resolution()
    return of.time_resolution(a["a1"])


def op_args(c, tag, n, search):
    a = {"a1": c.real("a1" + tag, nonzero=True), "t1": c.real("t1" + tag),
         "fc": c.real("cutoff" + tag, pos=True),
         "wc": c.int("windowcenter" + tag, lo=-(n // 2),
                     hi=n // 2 - (n + 1) % 2),
         "nc": None, "outside": False, "pol": 0, "interp": False,
         "nothing": False}
    if search:
        v = c.choice("variant" + tag, [0, 1, -1, "interpolate", "none"])
        if v == "interpolate":
            a["interp"] = True
        elif v == "none":
            a["nothing"] = True
        else:
            a["pol"] = v
        if not c.sym:
            a["outside"] = c.flag("outside" + tag)
            if c.flag("constrained" + tag):
                a["nc"] = c.int("nconstrain" + tag, lo=1, hi=max(n - 1, 1))
    return a


class Recorder:
    """relational contract of the delay search: a pure function of its
    arguments (its k-th call in the second run must get the arguments of the
    k-th call in the first run)"""

    def __init__(self, c, interpolate=True):
        self.c = c
        self.mode = "free"
        self.calls = []
        self.pos = 0
        self.nothing = False
        self.icalls = []
        self.ipos = 0
        c.override(M + "_argmin_chi2", self.search)
        if interpolate:
            c.override(M + "OptimumFilter._interpolate_of", self.interpolate)

    def search(self, chi2, nconstrain=None, lgcoutsidewindow=False,
               constraint_mask=None, windowcenter=0):
        c = self.c
        n = chi2.shape[-1]
        args = (nconstrain, lgcoutsidewindow, windowcenter)
        if self.mode == "replay":
            if self.pos >= len(self.calls):
                c.check("delay search: same number of searches", False)
                return n // 2
            ref = self.calls[self.pos]
            self.pos += 1
            c.eq("delay search: same chi2", chi2, ref[0])
            c.eq("delay search: same window", args, ref[1])
            if constraint_mask is None or ref[2] is None:
                c.check("delay search: same constraint",
                        constraint_mask is None and ref[2] is None)
            else:
                k = c.index("any bin", n)
                c.check("delay search: same constraint",
                        constraint_mask[k] == ref[2][k])
            return ref[3]
        if self.mode == "free":
            return n // 2
        if self.nothing:
            b = np.nan
        else:
            b = c.int("bestind", lo=0, hi=n - 1)
        if self.mode == "record":
            self.calls.append((chi2, args, constraint_mask, b))
        return b


    def interpolate(self, amps, chi2, bestind, delta):
        c = self.c
        if self.mode == "replay":
            if self.ipos >= len(self.icalls):
                c.check("interpolation: same number of calls", False)
                return 0, 0, 0
            ref = self.icalls[self.ipos]
            self.ipos += 1
            c.eq("interpolation: same amplitudes", amps, ref[0])
            c.eq("interpolation: same chi2", chi2, ref[1])
            c.eq("interpolation: same bin", bestind, ref[2])
            c.eq("interpolation: same spacing", delta, ref[3])
            return ref[4]
        r = (c.fresh_real("amp"), c.fresh_real("t"), c.fresh_real("chi2"))
        self.icalls.append((amps, chi2, bestind, delta, r))
        return r


def caches(c, mk, args, rec):
    """attributes that are filled by use, with their values after use"""
    R = mk()
    new = [k for k, v in vars(R).items() if v is None]
    for op in OPS:
        run_op(R, op, args)
    return {k: vars(R)[k] for k in new if vars(R).get(k) is not None}


def lazily_used(c, of, filled):
    """of in an arbitrary state reachable by use: each cache attribute is
    either unset or holds the value that any use would store"""
    class Used(OptimumFilter):
        def __getattr__(self, name):
            if name in filled:
                v = filled[name] if c.flag("cached " + name) else None
                self.__dict__[name] = v
                return v
            raise AttributeError(name)
    for k in filled:
        del of.__dict__[k]
    of.__class__ = Used
    return of


def history_setup(c):
    n = c.int("n", lo=2)
    fs = c.real("fs", pos=True)
    tem = c.array("template", n)
    psd = c.array("psd", n, pos=True)
    coupling = c.choice("coupling", ["AC", "DC"])
    sigs = [c.array("signal A", n), c.array("signal B", n)]
    c.regular(lambda: (n > 2) & distinct(fs, n, tem, psd, coupling))
    rec = Recorder(c)

    def mk(i):
        return OptimumFilter(sigs[i], tem, psd, fs, coupling=coupling)
    base = {"a1": c.real("r1", nonzero=True), "t1": c.real("r2"),
            "fc": c.real("r3", pos=True), "wc": 0, "nc": None,
            "outside": False, "pol": 0, "interp": False}
    return n, sigs, mk, rec, base


@contract("C06", [M + "OptimumFilter." + f for f in (
    "ofamp_nodelay", "ofamp_withdelay", "ofamp_pileup_iterative",
    "ofamp_pileup_stationary", "ofamp_baseline", "chi2_nopulse",
    "chi2_lowfreq", "energy_resolution", "time_resolution")],
    split={"op": 9, "coupling": 2, "variant": 5})
def use_is_transparent(c):
    """any use leaves the object valid; results do not depend on it"""
    n, sigs, mk, rec, base = history_setup(c)
    op = c.choice("op", OPS)
    args = op_args(c, "", n, op in OPS[1:5])
    filled = caches(c, lambda: mk(0), base, rec)
    rec.mode = "record"
    rec.nothing = args["nothing"] and op != "stationary"
    want = run_op(mk(0), op, args)
    rec.mode = "replay"
    T = lazily_used(c, mk(0), filled)
    fixed = {k: v for k, v in vars(mk(0)).items() if k not in filled}
    got = run_op(T, op, args)
    c.eq("same result as a fresh object", got, want)
    for k, v in vars(T).items():
        if k in filled:
            if v is not None:
                c.eq("stored " + k + " is what any use stores", v, filled[k])
        elif k in fixed:
            c.eq("attribute " + k + " is kept", v, fixed[k])
    c.frame()


@contract("C06", [M + "OptimumFilter.update_signal"])
def update_forgets(c):
    """after update_signal the object is as good as new for the new signal"""
    n, sigs, mk, rec, base = history_setup(c)
    fillA = caches(c, lambda: mk(0), base, rec)
    fillB = caches(c, lambda: mk(1), base, rec)
    T = lazily_used(c, mk(0), fillA)
    T.update_signal(sigs[1])
    fresh = vars(mk(1))
    for k in fresh:
        if k not in T.__dict__:
            c.eq("kept " + k + " does not depend on the signal",
                 fillA[k], fillB[k])
        elif k in fillB:
            if T.__dict__[k] is not None:
                c.eq("stored " + k + " is for the new signal",
                     T.__dict__[k], fillB[k])
        else:
            c.eq("attribute " + k + " is as in a new object",
                 T.__dict__[k], fresh[k])
    c.frame()


@contract("C06", [M + "OptimumFilter.update_signal"],
          crosscheck="random histories of calls (cross-check of the inductive "
          "argument in use_is_transparent and update_forgets)")
def random_history(c):
    n, sigs, mk, rec, base = history_setup(c)
    T = mk(0)
    cur = 0
    steps = c.int("steps", lo=1, hi=8)
    for i in range(steps):
        if c.flag("update %d" % i):
            cur = c.choice("signal %d" % i, [0, 1])
            T.update_signal(sigs[cur])
        op = c.choice("op %d" % i, OPS)
        args = op_args(c, " %d" % i, n, op in OPS[1:5])
        c.eq("same result as a fresh object", run_op(T, op, args),
             run_op(mk(cur), op, args))
    c.frame()


def parabola(y0, y1, y2, d, t):
    """Lagrange parabola through (-d, y0), (0, y1), (d, y2)"""
    return (y0 * t * (t - d) / (2 * d**2) + y1 * (1 - t**2 / d**2)
            + y2 * t * (t + d) / (2 * d**2))


def dparabola(y0, y1, y2, d, t):
    return (y0 * (2 * t - d) / (2 * d**2) - 2 * y1 * t / d**2
            + y2 * (2 * t + d) / (2 * d**2))


def _vertex_spec(c, amps, chi2, b, n, d, res):
    a, t, x = res
    p, q = (b - 1) % n, (b + 1) % n
    y = chi2[p], chi2[b], chi2[q]
    sy = abs(y[0]) + abs(y[1]) + abs(y[2])
    sa = abs(amps[p]) + abs(amps[b]) + abs(amps[q])
    c.eq("time is the extremum of the parabola",
         dparabola(y[0], y[1], y[2], d, t), 0, scale=sy / d)
    c.eq("chi2 is on the parabola", x, parabola(y[0], y[1], y[2], d, t),
         scale=sy)
    c.eq("amplitude is on its parabola", a,
         parabola(amps[p], amps[b], amps[q], d, t), scale=sa)


@contract("C04", [M + "OptimumFilter._interpolate_of",
                  M + "OptimumFilter._interpolate_parabola"], grid=True)
def vertex(c):
    c.need(OptimumFilter, "_interpolate_of")
    n = c.int("n", lo=3)
    amps = c.array("amps", n)
    chi2 = c.array("chi2", n, nonneg=True)
    b = c.index("bestind", n)
    d = c.real("spacing", pos=True)
    p, q = (b - 1) % n, (b + 1) % n
    curv = chi2[p] - 2 * chi2[b] + chi2[q]
    c.regular(lambda: abs(curv) > 1e-3 * chi2[b])
    c.assume(c.either(curv > 0, curv < 0))
    res = OptimumFilter._interpolate_of(amps, chi2, b, d)
    _vertex_spec(c, amps, chi2, b, n, d, res)
    # consequences at a minimum
    c.assume(c.both(chi2[b] <= chi2[p], chi2[b] <= chi2[q]))
    c.cover("minimum")
    c.check("time moves by at most half a bin", c.both(
        c.leq(res[1], d / 2), c.leq(-d / 2, res[1])))
    c.check("chi2 does not increase", c.leq(
        res[2], chi2[b], scale=chi2[p] + chi2[q]))
    c.frame()


@contract("C04", [M + "OptimumFilter.ofamp_withdelay",
                  M + "OptimumFilter.ofamp_pileup_iterative",
                  M + "OptimumFilter.ofamp_baseline",
                  M + "OptimumFilter._interpolate_of",
                  M + "OptimumFilter._interpolate_parabola"],
          split={"fit": 3, "coupling": 2})
def interpolated_fits(c):
    """interpolation refines the fit of the same call without it"""
    n, fs, sig, tem, psd, coupling = inputs(c, lo=3)
    kind = c.choice("fit", ["withdelay", "iterative", "baseline"])
    rec = Recorder(c, interpolate=False)
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    if kind == "baseline":
        v, s, df = spectra(sig, tem, fs, n)
        w = weights(psd, "DC")
        c.regular(lambda: clear_minimum(
            joint_profile(v, s, w, df, n)[2], np.sum(abs(v)**2 * w) * df))
    args = {"a1": c.real("a1"), "t1": c.real("t1"), "nc": None,
            "outside": False, "pol": 0, "interp": False,
            "wc": c.int("windowcenter", lo=-(n // 2),
                        hi=n // 2 - (n + 1) % 2)}
    if not c.sym:
        args["nc"] = c.choice("window", [None, 1, 3])
        args["outside"] = c.flag("outside")
        args["pol"] = c.choice("polarity", [0, 1, -1])
        c.assume(c.neg(args["outside"] and args["nc"] is not None
                       and n <= args["nc"]))
    rec.mode = "record"
    a, t, x = run_op(of, kind, args)
    c.regular(lambda: (x > 0) & (a != 0))
    rec.mode = "replay"
    args["interp"] = True
    res = run_op(of, kind, args)
    # profile of amplitude and chi2 around the best bin
    m = c.to_int("delay without interpolation", t * fs)
    amps, chi = profile(c, n, fs, sig, tem, psd, coupling, kind, args)
    b = m + n // 2
    c.regular(lambda: abs(chi[(b - 1) % n] - 2 * chi[b] + chi[(b + 1) % n])
              > 1e-3 * chi[b])
    c.eq("amplitude without interpolation", a, amps[b])
    c.eq("chi2 without interpolation", x, chi[b], scale=np.max(chi)
         if not c.sym else None)
    _vertex_spec(c, amps, chi, b, n, 1 / fs,
                 (res[0], res[1] - m / fs, res[2]))
    c.frame()


def profile(c, n, fs, sig, tem, psd, coupling, kind, args):
    """best amplitude and its chi2 at every rolled delay bin"""
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling if kind != "baseline" else "DC")
    if kind == "iterative":
        v = v - args["a1"] * s * phase(fs, n, args["t1"])
    if kind == "baseline":
        v = v - best_baseline(v, s, w, df, n) * const_spectrum(n, df)
    amps, norm = best_amps(v, s, w, df, n)
    return amps, np.sum(abs(v)**2 * w) * df - amps**2 * norm


def const_spectrum(n, df):
    """spectrum of a unit baseline"""
    k = np.arange(n)
    return np.where(k == 0, 1 / df, 0)


def joint_profile(v, s, w, df, n):
    """best (amplitude, baseline) and chi2 for every delay bin (unrolled)"""
    d0 = 1 / df
    norm = np.sum(abs(s)**2 * w) * df
    b1 = np.real(np.fft.ifft(s.conjugate() * v * w)) * n * df
    b2 = np.real(s[0]) * w[0] * d0 * df
    c1 = np.real(v[0]) * w[0] * d0 * df
    c2 = d0**2 * w[0] * df
    a = (b1 * c2 - b2 * c1) / (norm * c2 - b2**2)
    b = (c1 - a * b2) / c2
    chi0 = np.sum(abs(v)**2 * w) * df
    return a, b, (chi0 - 2 * (a * b1 + b * c1) + a**2 * norm
                  + 2 * a * b * b2 + b**2 * c2)


def best_baseline(v, s, w, df, n):
    a, b, chi = joint_profile(v, s, w, df, n)
    return b[np.argmin(chi)]


def clear_minimum(chi, scale):
    """rounding cannot change the best delay"""
    x = np.sort(chi)
    return x[1] - x[0] > 1e-5 * scale


@contract("C09", [M + "OptimumFilter.ofamp_baseline"], split={"coupling": 2})
def joint_is_optimal(c):
    """the joint profile is the minimum over amplitude and baseline (lemma
    for baseline_fit, in terms of the residual itself)"""
    n, fs, sig, tem, psd, coupling = inputs(c)
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, "DC")
    c.regular(lambda: np.sum(abs(s[1:])**2) > 1e-3 * abs(s[0])**2)
    a, b, chi = joint_profile(v, s, w, df, n)
    k = c.index("any delay", n)
    x = c.real("any amplitude")
    y = c.real("any baseline")
    norm = np.sum(abs(s)**2 * w) * df
    b2 = np.real(s[0]) * w[0]
    c2 = w[0] / df
    one = const_spectrum(n, df)
    e, f = x - a[k], y - b[k]
    sc = np.sum(abs(v)**2 * w) * df
    c.eq("completing the square",
         resid(v, x * s * bins(k, n) + y * one, w, df),
         chi[k] + norm * e**2 + 2 * b2 * e * f + c2 * f**2, scale=sc)
    c.check("the quadratic form is positive", c.leq(
        0, norm * c2 - b2**2, scale=norm * c2))


@contract("C09", [M + "OptimumFilter.ofamp_baseline"],
          split={"coupling": 2, "polarity": 3})
def baseline_fit(c):
    n, fs, sig, tem, psd, coupling = inputs(c)
    argmin_contract(c)
    nc, eff, outside, wc = constraints(c, n)
    pol = c.choice("polarity", [0, 1, -1])
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, "DC")
    c.regular(lambda: np.sum(abs(s[1:])**2) > 1e-3 * abs(s[0])**2)
    c.regular(lambda: clear_minimum(
            joint_profile(v, s, w, df, n)[2], np.sum(abs(v)**2 * w) * df))
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    amp, t0, chi2 = of.ofamp_baseline(
        nconstrain=nc, lgcoutsidewindow=outside,
        pulse_direction_constraint=pol, windowcenter=wc)
    base = best_baseline(v, s, w, df, n)
    rest = v - base * const_spectrum(n, df)
    chi0 = np.sum(abs(rest)**2 * w) * df
    sc = np.sum(abs(v)**2 * w) * df
    amps, norm = best_amps(rest, s, w, df, n)
    ok = window(c, n, eff, wc, outside)
    if pol != 0:
        ok = ok & (pol * amps > 0)
    if np.any(ok):
        c.cover("fit")
        m = c.to_int("t0 is a whole number of samples", t0 * fs)
        j = m + n // 2
        c.check("t0 lies inside the trace", (j >= 0) & (j < n))
        c.check("t0 is an allowed delay", ok[j])
        c.eq("chi2 is the residual of pulse and best baseline", chi2,
             resid(rest, amp * s * bins(m, n), w, df), scale=sc)
        k = c.index("any delay", n)
        c.check("no allowed delay has a smaller residual", c.implies(
            ok[k], c.leq(chi2, resid(rest, amps[k] * s * bins(k - n // 2, n),
                                     w, df), scale=sc)))
    else:
        c.cover("no fit")
        c.eq("amplitude zero without allowed delay", amp, 0)
        c.eq("time zero without allowed delay", t0, 0)
        c.eq("chi2 of the baseline alone without allowed delay", chi2, chi0,
             scale=sc)
    c.frame()


@contract("C10", [M + "OptimumFilter.chi2_lowfreq", M + "chi2lowfreq"])
def lowfreq(c):
    n, fs, sig, tem, psd, coupling = inputs(c)
    a = c.real("amp")
    t = c.real("t0")
    fc = c.real("cutoff", pos=True, like=lambda: abs(
        np.fft.fftfreq(n, d=1 / fs)) + 1e-300)
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    got = of.chi2_lowfreq(a, t, fcutoff=fc)
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling)
    f = np.fft.fftfreq(n, d=1 / fs)
    each = np.abs(v - a * s * phase(fs, n, t))**2 * w * df
    sc = np.sum(each) + np.sum(abs(v)**2 * w) * df
    c.eq("residual summed over frequencies up to the cutoff", got,
         np.sum(np.where(abs(f) <= fc, each, 0)), scale=sc)
    c.eq("function and class agree", fitting.chi2lowfreq(
        sig, tem, a, t, psd, fs, fcutoff=fc, coupling=coupling), got,
        scale=sc)
    c.frame()


@contract("C10", [M + "chi2lowfreq", M + "chi2_nopulse"])
def many_traces(c):
    """a stack of traces gives the result of each trace"""
    n, fs, _, tem, psd, coupling = inputs(c)
    r = c.int("rows", lo=2)
    sig = c.array("signals", (r, n))
    a = c.array("amps", r)
    t = c.array("t0s", r)
    fc = c.real("cutoff", pos=True)
    i = c.index("row", r)
    got = fitting.chi2lowfreq(sig, tem, a, t, psd, fs, fcutoff=fc,
                              coupling=coupling)
    c.check("one value per trace", got.shape[0] == r)
    one = fitting.chi2lowfreq(sig[i], tem, a[i], t[i], psd, fs, fcutoff=fc,
                              coupling=coupling)
    c.eq("low-frequency chi2 of each trace", got[i], one)
    got = fitting.chi2_nopulse(sig, psd, fs, coupling=coupling)
    c.eq("no-pulse chi2 of each trace", got[i],
         fitting.chi2_nopulse(sig[i], psd, fs, coupling=coupling))
    c.frame()


@contract("C10", [M + "OptimumFilter.chi2_nopulse", M + "chi2_nopulse",
                  M + "OptimumFilter.energy_resolution",
                  M + "OptimumFilter.time_resolution", M + "ofamp"])
def merit(c):
    n, fs, sig, tem, psd, coupling = inputs(c, lo=3)
    a = c.real("amp", nonzero=True)
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling)
    chi0 = np.sum(abs(v)**2 * w) * df
    c.eq("chi2 without a pulse", of.chi2_nopulse(), chi0)
    c.eq("chi2 without a pulse, function",
         fitting.chi2_nopulse(sig, psd, fs, coupling=coupling), chi0)
    norm = np.sum(abs(s)**2 * w) * df
    e = of.energy_resolution()
    c.eq("energy resolution is the curvature of chi2", e, 1 / np.sqrt(norm))
    f = np.fft.fftfreq(n, d=1 / fs)
    g = of.time_resolution(a)
    c.eq("time resolution", g, 1 / np.sqrt(a**2 * np.sum(
        (2 * np.pi * f)**2 * abs(s)**2 * w) * df))
    c.frame()


@contract("C11", [M + "OptimumFilter.ofamp_nodelay",
                  M + "OptimumFilter.ofamp_withdelay"],
          split={"coupling": 2})
def exact_recovery(c):
    """a trace that is a shifted, scaled template (plus, for AC coupling, any
    offset) is recovered exactly"""
    n, fs, _, tem, psd, coupling = inputs(c, lo=3)
    a = c.real("amplitude", nonzero=True)
    k = c.index("true bin", n)
    off = c.real("offset") if coupling == "AC" else 0
    sig = a * np.roll(tem, k - n // 2) + off
    c.regular(lambda: distinct(fs, n, tem, psd, coupling))
    argmin_contract(c)
    of = OptimumFilter(sig, tem, psd, fs, coupling=coupling)
    x, chi2 = of.ofamp_nodelay(windowcenter=k - n // 2)
    v, s, df = spectra(sig, tem, fs, n)
    w = weights(psd, coupling)
    chi0 = np.sum(abs(v)**2 * w) * df
    c.eq("true amplitude at the true delay", x, a)
    c.eq("chi2 vanishes at the true delay", chi2, 0, scale=chi0)
    x, t, chi2 = of.ofamp_withdelay()
    c.check("the search does at least as well as the true delay", c.leq(
        chi2, chi2_at(c, v, s, w, df, n, a, k - n // 2), scale=chi0))
    c.frame()


@contract("C11", [M + "OptimumFilter.__init__",
                  M + "OptimumFilter.ofamp_nodelay",
                  M + "OptimumFilter.ofamp_withdelay"])
def linearity(c):
    """amplitudes are linear in the trace, chi2 quadratic in its scale;
    scaling the noise rescales only chi2"""
    n, fs, sig, tem, psd, coupling = inputs(c)
    sig2 = c.array("signal 2", n)
    x, y = c.real("x", nonzero=True), c.real("y")
    q = c.real("noise scale", pos=True)
    m = c.int("windowcenter", lo=-(n // 2), hi=n // 2 - (n + 1) % 2)

    def amp(sg, p=psd, norm=False):
        of = OptimumFilter(sg, tem, p, fs, coupling=coupling,
                           integralnorm=norm)
        return of.ofamp_nodelay(windowcenter=m)
    a1, c1 = amp(sig)
    a2, c2 = amp(sig2)
    a3, c3 = amp(x * sig + y * sig2)
    sc = abs(x * a1) + abs(y * a2)
    c.eq("amplitude is linear", a3, x * a1 + y * a2, scale=sc)
    a4, c4 = amp(x * sig)
    v, s, df = spectra(sig, tem, fs, n)
    chi0 = np.sum(abs(v)**2 * weights(psd, coupling)) * df
    c.eq("chi2 is quadratic", c4, x**2 * c1, scale=x**2 * chi0)
    a5, c5 = amp(sig, q * psd)
    c.eq("noise scale leaves the amplitude alone", a5, a1)
    c.eq("noise scale divides chi2", c5 * q, c1, scale=chi0)
    if coupling == "DC":
        c.regular(lambda: abs(np.sum(tem)) > 0.05)
    else:
        c.regular(lambda: abs(np.sum(tem)) > 0.05)
    a6, c6 = amp(sig, norm=True)
    c.eq("integral normalisation returns the integral", a6,
         a1 * np.sum(tem) / fs)
    c.eq("integral normalisation keeps chi2", c6, c1, scale=chi0)
    c.frame()
