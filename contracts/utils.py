"""Contracts of the general tools (qetpy/utils/_utils.py)."""
import numpy as np
from contracts.base import contract
from qetpy.utils import _utils as utils
from scipy import constants

U = "qetpy.utils._utils:"


def u(lo, hi):
    return lambda r: r.uniform(lo, hi)


class NdShift:
    """scipy.ndimage.shift(order=1, mode='constant'): linear interpolation
    between neighbouring samples, cval where the position is outside"""

    def __init__(self, c):
        self.c = c
        c.stub("scipy.ndimage.shift", self)

    def __call__(self, arr, num, order=3, mode="constant", cval=0.0):
        self.c.assume(order == 1)
        self.c.assume(mode == "constant")
        return linear(self.c, arr, num, cval)


def linear(c, arr, num, cval):
    n = len(arr)
    lo = int(np.floor(num))
    f = num - lo
    # position k - num = (k - lo - 1) + (1 - f)
    pad = np.zeros(n) + cval
    k = np.arange(n)
    i = k - lo - 1
    inside = (i >= 0) & (i + 1 <= n - 1)
    a = arr[np.where(inside, i, 0)]
    b = arr[np.where(inside, i + 1, 0)]
    return np.where(inside, f * a + (1 - f) * b, pad)


@contract("U01", [U + "shift"])
def shifted(c):
    n = c.int("n", lo=2)
    arr = c.array("arr", n)
    if c.flag("integer samples") and c.concrete:
        arr = np.rint(4 * arr).astype(int)
    fill = c.real("fill") if c.concrete and arr.dtype.kind == "f" \
        or not c.concrete else 7
    k = c.index("k", n)
    if c.flag("fraction of a bin"):
        s = c.int("s", lo=None) if not c.concrete else c.int("s", lo=-3, hi=3)
        f = c.real("f", pos=True, gen=lambda r: r.choice(
            [.5, .25, .005, .995, 1e-4, r.uniform(.05, .95)]))
        c.assume(f < 1)
        NdShift(c)
        out = utils.shift(arr, s + f, fill_value=fill)
        i = k - s - 1
        if c.both(i >= 0, i + 1 < n):
            c.eq("linear interpolation", out[k],
                 f * arr[i] + (1 - f) * arr[i + 1])
        else:
            c.eq("filled", out[k], fill)
    else:
        s = c.int("s", lo=None) if not c.concrete else c.int("s", lo=-9, hi=9)
        num = s
        if c.flag("as a float"):
            num = s + 0.0
        out = utils.shift(arr, num, fill_value=fill)
        if c.both(k - s >= 0, k - s < n):
            c.eq("every sample is moved by the shift", out[k], arr[k - s])
        else:
            c.eq("filled", out[k], fill)
    c.check("length", len(out) == n)
    c.frame()


@contract("U02", [U + "make_template", U + "shift"])
def template(c):
    n = c.int("n", lo=2)
    dt = c.real("dt", pos=True, gen=u(.1, 1))
    off = c.int("offset", lo=None) if not c.concrete else \
        c.int("offset", lo=-3, hi=3)
    start = n // 2 + off
    c.assume(c.both(start >= 0, start < n - 1))
    tr = c.real("tau_r", pos=True, gen=u(.2, 2))
    tf = c.real("tau_f", pos=True, gen=u(2.1, 9))
    c.assume(tr < tf)
    t = np.arange(n) * dt
    k = c.index("k", n)
    j = c.index("j", n)
    calls = []
    moved = c.fresh_array("moved", n)

    def shift(arr, num, fill_value=0):
        # contract of shift (U01)
        calls.append(num)
        c.eq("moved to the centre plus the offset", num, start)
        for i in (k, j, start + 1):
            if i < start:
                c.assume(moved[i] == fill_value)
            else:
                c.assume(moved[i] == arr[i - start])
        return moved

    def pulse(i):
        return np.exp(-(i - start) * dt / tf) - np.exp(-(i - start) * dt / tr)
    c.check("the pulse is positive", pulse(start + 1) > 0)
    c.assume(pulse(start + 1) > 0)      # proved by the previous line
    c.override("qetpy.utils._utils:shift", shift)
    out = utils.make_template(t, tr, tf, off)
    if not c.concrete:
        c.need(shift, "__call__" if calls else "a call of shift")
        c.term(start + 1)
    c.check("length", len(out) == n)
    if k < start:
        c.eq("zero before the pulse", out[k], 0)
    elif j >= start:
        c.eq("two exponentials starting at the centre plus the offset",
             out[k] * pulse(j), out[j] * pulse(k))
    c.le("at most one", out[k], 1, tol=1e-12)
    c.eq("maximum one", np.max(out), 1)
    c.frame()


@contract("U03", [U + "calc_offset"])
def offset(c):
    n = c.int("n", lo=2)
    m = c.int("ntraces", lo=1, hi=None if not c.concrete else 5)
    shape = (m, n)
    if c.flag("several channels"):
        shape = (m, 2, n)
    x = c.array("x", shape)
    if c.flag("square wave"):
        fs = c.choice("fs", [1e5, 625e3, 48.0, 7.0])
        sg = c.choice("sgfreq", [75.0, 12.0, 100.0, 3.0])
        if c.concrete and c.flag("whole periods"):
            p = c.int("periods", lo=1, hi=3)
            q = p * fs / sg
            c.assume(q == int(q) and q < 30000)
            n = int(q)
            x = c.array("y", (m, n))
        per = int(n * sg / fs)
        c.assume(per >= 1)
        keep = int(per * fs / sg)
        c.assume(keep >= 1)
        off, std = utils.calc_offset(x, fs=fs, sgfreq=sg, is_didv=True)
        y = x[..., :keep]
    else:
        off, std = utils.calc_offset(x)
        y = x
    means = np.mean(y, axis=-1)
    c.eq("mean of the traces", off, np.sum(means, axis=0) / m)
    c.eq("standard error of the mean", std**2, np.mean(
        (means - np.mean(means, axis=0))**2, axis=0) / m)
    c.frame()


@contract("U04", [U + "fill_negatives"])
def filled(c):
    n = c.int("n", lo=1)
    arr = c.array("arr", n, frozen=False)
    if c.flag("round numbers") and c.concrete:
        arr = np.rint(2 * arr)
    old = 1 * arr
    k = c.index("k", n)
    filling = c.fresh_array("filling", n, pos=True)

    def interp(x, xp, fp):
        # contract of np.interp: values between the smallest and the largest
        if c.concrete:
            return real_interp(x, xp, fp)
        c.check("interpolated at the negative and zero entries",
                len(x) == len(old[old <= 0]))
        c.eq("positions of the gaps", x, np.arange(n)[old <= 0])
        c.eq("positions of the good values", xp, np.arange(n)[old > 0])
        c.eq("good values", fp, old[old > 0])
        return filling[old <= 0]
    if c.concrete:
        real_interp = np.interp
    else:
        c.stub("numpy.interp", interp)
    out = utils.fill_negatives(arr)
    if old[k] > 0:
        c.eq("positive values are kept", out[k], old[k])
    elif np.any(old > 0):
        c.check("the others become positive", out[k] > 0)
        if c.concrete:
            c.eq("interpolated", out[k], np.interp(
                k, np.flatnonzero(old > 0), old[old > 0]))
    else:
        c.eq("nothing to interpolate from", out[k], old[k])


@contract("U05", [U + "slope"])
def straight_line(c):
    n = c.int("n", lo=2)
    x = c.array("x", n)
    y = c.array("y", n)
    xc = x - np.mean(x)
    s = utils.slope(x, y)
    c.eq("residuals are uncorrelated with x", np.sum(
        xc * (y - np.mean(y) - s * xc)), 0,
        scale=np.sum(np.abs(xc)) * np.sum(np.abs(y)))
    c.eq("shift of the origin", utils.slope(x + 1, y + 2), s,
         scale=np.sum(np.abs(y) + 2) / np.sqrt(np.sum(xc**2)))
    c.eq("means already removed", utils.slope(
        xc, y - np.mean(y), removemeans=False), s,
        scale=np.sum(np.abs(y) + 2) / np.sqrt(np.sum(xc**2)))
    c.frame()


@contract("U06", [U + "powertrace_simple", U + "energy_absorbed"])
def energy(c):
    n = c.int("n", lo=3)
    dims = c.choice("dimensions", [1, 2, 3])
    shape = (n,)
    if dims > 1:
        m = c.int("ntraces", lo=1, hi=None if not c.concrete else 4)
        shape = (m, n) if dims == 2 else (m, 2, n)
    x = c.array("trace", shape)
    ioff, qb = c.real("ioffset"), c.real("qetbias")
    rl, rsh = c.real("rload", nonneg=True), c.real("rsh", pos=True)
    i = x - ioff
    pw = qb * rsh * i - rl * i**2
    c.eq("bias power of the voltage-biased circuit",
         utils.powertrace_simple(x, ioff, qb, rl, rsh), pw)
    kw = {}
    pre = c.int("pre", lo=1, hi=None if not c.concrete else 8)
    c.assume(pre < n)
    if c.flag("known baseline"):
        base = c.array("baseline", shape[:-1] + (1,)) if dims > 1 else \
            c.real("baseline")
        kw["baseline"] = base
    else:
        kw["indbasepre"] = pre
        seg = x[..., :pre]
        total, count = np.sum(seg, axis=-1), pre
        if c.flag("baseline after the pulse too"):
            post = c.int("post", lo=1, hi=None if not c.concrete else 8)
            c.assume(c.both(post < n, pre <= post))
            kw["indbasepost"] = post
            total = total + np.sum(x[..., post:], axis=-1)
            count = pre + n - post
        base = (total / count)[..., None] if dims > 1 else total / count
    b = base - ioff
    drop = qb * rsh * b - rl * b**2 - pw
    mid = (drop[..., 1:] + drop[..., :-1]) / 2
    if c.flag("sample rate"):
        fs = c.real("fs", pos=True, gen=u(1, 1e5))
        kw["fs"] = fs
        want = np.sum(mid, axis=-1) / fs
    else:
        t = c.array("time", n)
        kw["time"] = t
        want = np.sum(mid * (t[1:] - t[:-1]), axis=-1)
    got = utils.energy_absorbed(x, ioff, qb, rl, rsh, **kw)
    c.eq("integral of the drop of the bias power, in eV",
         got * constants.e, want, scale=np.sum(np.abs(mid)))
    c.frame()


@contract("U06", [U + "energy_absorbed"])
def energy_arguments(c):
    n = c.int("n", lo=3)
    x = c.array("trace", n)
    e, _ = c.raises(lambda: utils.energy_absorbed(x, 0.0, 1.0, 1.0, 1.0,
                                                  fs=1.0), ValueError)
    c.check("a baseline is required", e is not None)
    e, _ = c.raises(lambda: utils.energy_absorbed(
        x, 0.0, 1.0, 1.0, 1.0, indbasepre=1), ValueError)
    c.check("a time scale is required", e is not None)


@contract("U07", [U + "get_offset_from_muon"])
def muon_offset(c):
    n = c.int("n", lo=2, hi=None if not c.concrete else 500)
    x = c.array("muon", n)
    qb, rn = c.real("qetbias", pos=True), c.real("rn", pos=True)
    rl, rsh = c.real("rload", pos=True), c.real("rsh", pos=True)
    nb = c.int("nbaseline", lo=1, hi=None if not c.concrete else 50)
    ioff, r0, i0, p0 = utils.get_offset_from_muon(
        x, qb, rn, rl, rsh=rsh, nbaseline=nb)
    v = qb * rsh
    pk = np.argmax(x)
    sat = np.mean(x[pk:pk + 200])
    base = np.mean(x[:nb])
    c.eq("offset", ioff, base - i0)
    c.eq("saturated current is the normal-state current",
         (sat - ioff) * (rl + rn), v, scale=v + abs(sat * (rl + rn)))
    c.assume(i0 != 0)
    c.eq("resistance", i0 * (r0 + rl), v)
    c.eq("bias power", p0, i0**2 * r0, scale=abs(v * i0) + abs(rl * i0**2))
    c.eq("offset only", utils.get_offset_from_muon(
        x, qb, rn, rl, rsh=rsh, nbaseline=nb, lgcfullrtn=False), ioff)
    c.frame()


@contract("U08", [U + "estimate_g"])
def conductance(c):
    p0 = c.real("p0", pos=True)
    tc = c.real("tc", pos=True, gen=u(2, 3))
    tb = c.real("tbath", pos=True, gen=u(.5, 1.9))
    c.assume(tb < tc)
    n = c.choice("n", [5, 4, 6])
    d = tc**n - tb**n
    if c.flag("covariance"):
        cov = c.array("cov", (3, 3))
        # positive semidefinite
        cov = np.dot(cov, cov.T)
        g, err = utils.estimate_g(p0, tc, tb, cov=cov, n=n)
        # derivatives of G = n P tc^(n-1) / (tc^n - tb^n)
        grad = [n * tc**(n - 1) / d,
                n * p0 * ((n - 1) * tc**(n - 2) * d
                          - tc**(n - 1) * n * tc**(n - 1)) / d**2,
                n * p0 * tc**(n - 1) * n * tb**(n - 1) / d**2]
        var = sum(grad[i] * grad[j] * cov[i, j] for i in range(3)
                  for j in range(3))
        c.eq("propagated error", err**2, var, scale=sum(
            abs(grad[i] * grad[j] * cov[i, j]) for i in range(3)
            for j in range(3)))
    else:
        s = c.real("p0_err", nonneg=True)
        g, err = utils.estimate_g(p0, tc, tb, p0_err=s, n=n)
        c.eq("relative error of the power", err * p0, g * s)
    c.eq("power law", g * d, n * p0 * tc**(n - 1))
    c.frame()


@contract("U09", [U + "resample_factors", U + "resample_data"])
def resampling(c):
    fs = c.int("fs", lo=1, hi=None if not c.concrete else 5000)
    sg = c.int("sgfreq", lo=1, hi=None if not c.concrete else 500)
    if c.concrete and c.flag("common rate"):
        fs = c.choice("rate", [625000, 1250000, 100000, 51200])
    up, down = utils.resample_factors(fs, sg)
    c.check("positive factors", c.both(up >= 1, down >= 1))
    c.check("the new rate is a multiple of the frequency",
            (fs * up) % (down * sg) == 0)
    if fs % sg == 0:
        c.check("nothing to do", c.both(up == 1, down == 1))
    n = c.int("n", lo=20, hi=40)
    x = c.array("x", (n, 3))
    axis = c.choice("axis", [-1, 1, 0])
    y, rate = utils.resample_data(x[:, 0], fs, sg)
    c.eq("new rate", rate * down, fs * up)
    c.check("length", len(y) == -(-n * up // down))
    z, _ = utils.resample_data(x if axis == 0 else x.T, fs, sg,
                               **({} if axis == -1 else {"axis": axis}))
    c.eq("every trace of a stack", z if axis == 0 else z.T, np.array(
        [utils.resample_data(x[:, i], fs, sg)[0] for i in range(3)]).T)
    c.frame()


class Filter:
    """scipy.signal.butter and filtfilt: an unknown function of the traces"""

    def __init__(self, c, wn, traces):
        self.c, self.wn, self.x = c, wn, traces
        self.ba = c.fresh_array("b", 2), c.fresh_array("a", 2)
        self.y = c.fresh_array("filtered", traces.shape)
        c.stub("scipy.signal.butter", self.butter)
        c.stub("scipy.signal.filtfilt", self.filtfilt)

    def butter(self, order, wn):
        self.c.check("first-order filter", order == 1)
        self.c.eq("cut-off in units of the Nyquist frequency", wn, self.wn)
        return self.ba

    def filtfilt(self, b, a, x, padtype="odd"):
        self.c.check("the designed filter", b is self.ba[0]
                     and a is self.ba[1])
        self.c.check("even padding", padtype == "even")
        self.c.eq("filtered traces", x, self.x)
        return self.y


def fftconvolve(a, b, mode="full"):
    k = np.arange(len(a) + len(b) - 1)
    j = np.arange(len(a))
    d = k[:, None] - j[None, :]
    ok = (d >= 0) & (d < len(b))
    return np.sum(a[None, :] * np.where(ok, b[np.where(ok, d, 0)], 0),
                  axis=1)


@contract("U10", [U + "lowpassfilter", U + "align_traces"])
def alignment(c):
    n = c.int("n", lo=16, hi=None if not c.concrete else 60)
    m = c.int("ntraces", lo=2, hi=None if not c.concrete else 4)
    x = c.array("traces", (m, n))
    fs = c.real("fs", pos=True, gen=u(1e4, 1e5))
    fc = c.real("cut", pos=True, gen=u(100, 4000))
    ncut = c.int("ncut", lo=12, hi=None if not c.concrete else 80)
    if c.concrete:
        from scipy import signal
        b, a = signal.butter(1, fc / (fs / 2))
        y = signal.filtfilt(b, a, x[:, :ncut], padtype="even")
    else:
        c.stub("scipy.signal.fftconvolve", fftconvolve)
        y = Filter(c, fc / (fs / 2), x[:, :ncut]).y
    s = utils.align_traces(x, lgcjustshifts=True, n_cut=ncut,
                           cut_off_freq=fc, fs=fs)
    y = y - np.mean(y, axis=-1, keepdims=True)
    y = y / np.amax(y, axis=-1, keepdims=True)
    c.eq("the first trace is not moved", s[0], 0)
    i = c.index("trace", m)
    corr = fftconvolve(y[0], y[i][::-1])
    c.eq("lag of the largest correlation with the first trace",
         s[i], np.argmax(corr) - np.argmax(fftconvolve(y[0], y[0][::-1])))
    if c.concrete:
        c.eq("lag zero", np.argmax(fftconvolve(y[0], y[0][::-1])),
             min(n, ncut) - 1)
        t, out = utils.align_traces(x, n_cut=ncut, cut_off_freq=fc, fs=fs)
        c.eq("same shifts", t, s)
    c.frame()


@contract("U11", [U + "make_decreasing"])
def decreasing(c):
    c.bounded("running minimum over a loop, interpolation of a selection")
    n = c.int("n", lo=1, hi=None if not c.concrete else 12)
    y = c.array("values", n)
    if c.concrete and c.flag("whole numbers"):
        y = np.round(2 * y)
    x = None
    if c.concrete and c.flag("x given"):
        x = np.cumsum(c.array("steps", n, pos=True,
                              gen=lambda r, q: r.uniform(.1, 3, q)))
    out = utils.make_decreasing(y, x)
    c.check("length", len(out) == n)
    t = np.arange(n) if x is None else x
    low = [0]
    for i in range(1, n):
        if y[i] < y[low[-1]]:
            low.append(i)
    scale = np.max(abs(y)) * (t[-1] - t[0] + 1) * 10
    for i in low:
        c.eq("lower than all before: kept", out[i], y[i], scale=scale)
    for i in range(n - 1):
        c.le("decreasing", out[i + 1], out[i], scale=scale)
    for a, b in zip(low[:-1], low[1:]):
        for i in range(a, b):
            c.eq("straight line between values kept", out[i], y[a] + (
                y[b] - y[a]) * (t[i] - t[a]) / (t[b] - t[a]), scale=scale)
    if len(low) > 1:
        a, b = low[-2:]
        for i in range(b, n):
            c.eq("last line continued", out[i], y[a] + (
                y[b] - y[a]) * (t[i] - t[a]) / (t[b] - t[a]), scale=scale)
    c.frame()
