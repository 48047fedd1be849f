"""Contracts of the N signal, M background fit (qetpy/core/_of_nsmb.py)."""
import numpy as np
from contracts.base import contract
from qetpy.core import _of_nsmb as ns

N = "qetpy.core._of_nsmb:"


def u(lo, hi):
    return lambda r: r.uniform(lo, hi)


def templates(c):
    n = c.int("samples", lo=2, hi=None if not c.concrete else 9)
    nb = c.choice("backgrounds", [1, 2, 3])
    fs = c.real("fs", pos=True, gen=u(1, 10))
    s = c.array("signal template", n)
    b = c.array("background templates", (n, nb))
    psd = c.array("psd", n, pos=True, gen=lambda r, m: r.uniform(.5, 2, m))
    return n, nb, fs, s, b, psd


@contract("X01", [N + f for f in ("of_nsmb_setup", "of_nsmb_ffttemplate",
                                  "of_nsmb_getPf")])
def setup(c):
    n, nb, fs, s, b, psd = templates(c)
    out = ns.of_nsmb_setup(s, b, psd, fs)
    psddnu, phi, Pfs, P, F, T, iB, B, nsig, nbkg, bits, lf = out
    c.check("one signal", nsig == 1)
    c.check("number of backgrounds", nbkg == nb)
    k = c.index("k", n)
    i = c.choice("i", list(range(nb + 1)))
    j = c.choice("j", list(range(nb + 1)))
    noise = np.where(np.arange(n) == 0, psd[1], psd) * fs / n

    def temp(q):
        return s if q == 0 else b[:, q - 1]
    fi, fj = np.fft.fft(temp(i)) / n, np.fft.fft(temp(j)) / n
    c.eq("templates", T[k, i], temp(i)[k])
    c.eq("spectra of the templates", F[k, i], fi[k])
    c.eq("noise per bin, the first from the second", psddnu[k, 0], noise[k])
    c.eq("weighted spectra", phi[i, k], (np.conj(fi) / noise)[k])
    cross = np.conj(fi) * fj / noise
    c.eq("overlap of the templates", Pfs[i, j], np.sum(cross).real)
    if (i == 0) == (j == 0):
        c.eq("two signals or two backgrounds: no delay", P[i, j, k],
             np.sum(cross).real)
    elif i == 0:
        c.eq("signal and background: the signal is delayed", P[i, j, k],
             np.fft.ifft(cross)[k].real * n)
    else:
        c.eq("symmetric", P[i, j, k], P[j, i, k])
    if i > 0 and j > 0:
        c.eq("background block", np.reshape(B, (nb, nb))[i - 1, j - 1],
             np.sum(cross).real)
        c.eq("inverse of the background block", iB[i - 1, j - 1],
             np.linalg.pinv(np.reshape(B, (nb, nb)))[i - 1, j - 1])
    c.frame()


@contract("X02", [N + "of_nsmb_getiP"])
def inverses(c):
    n = c.int("samples", lo=1, hi=None if not c.concrete else 5)
    m = c.choice("templates", [1, 2, 3, 4])
    P = c.array("P", (m, m, n))
    k = c.index("k", n)
    i = c.choice("i", list(range(m)))
    j = c.choice("j", list(range(m)))
    iP = ns.of_nsmb_getiP(P)
    c.eq("one inverse per delay", iP[i, j, k], np.linalg.pinv(P[:, :, k])[i, j])
    c.frame()


@contract("X02", [N + "of_nsmb"])
def fit(c):
    n = c.int("samples", lo=2, hi=None if not c.concrete else 9)
    nb = c.choice("backgrounds", [1, 2])
    m = nb + 1
    fs = c.real("fs", pos=True, gen=u(1, 10))
    y = c.array("pulse", n)
    phi = c.array("phi", (m, n), real=False)
    F = c.array("spectra", (m, n), real=False)
    T = c.array("templates", (n, m))
    iP = c.array("iP", (m, m, n))
    psd = c.array("psd", n, pos=True, gen=lambda r, q: r.uniform(.5, 2, q))
    w = c.int("window", lo=1, hi=None if not c.concrete else 5)
    win = c.array("allowed delays", w, dtype="i")
    lf = c.int("low frequency bins", lo=1, hi=None if not c.concrete else 9)
    c.assume(lf <= n)
    r = ns.of_nsmb(y, phi, F, T, iP, psd[None, :], fs, [win[None, :]], 1, nb,
                   None, lfindex=lf)
    amp, t0, chi2, chi2lf, res = r
    yf = np.fft.fft(y) / n

    def q(i, t):
        x = phi[i] * yf
        return np.fft.ifft(x)[t].real * n if i == 0 else np.sum(x).real

    def a(i, t):
        return sum(iP[i, j, t] * q(j, t) for j in range(m))

    def chi(t):
        return np.sum(abs(yf)**2 / psd) - sum(
            a(i, t) * q(i, t) for i in range(m))
    k = c.index("allowed", w)
    c.le("no allowed delay is better", chi2, chi(win[k] % n))
    d = c.to_int("whole samples", t0[0] * fs)
    t = d % n
    c.check("an allowed delay", np.any(win % n == t))
    c.check("signed delay", c.both(2 * d <= n, 2 * d >= -n))
    c.eq("chi-squared at the delay", chi2, chi(t))
    i = c.choice("i", list(range(m)))
    c.eq("amplitudes at the delay", amp[i], a(i, t))
    om = 2 * np.pi * np.fft.fftfreq(n, 1 / fs)
    rf = yf - a(0, t) * F[0] * np.exp(-1j * om * t0[0]) - sum(
        a(j, t) * F[j] for j in range(1, m))
    s = c.index("sample", n)
    c.eq("residual", res[0, s], np.fft.ifft(rf)[s].real * n)
    c.eq("low-frequency chi-squared", chi2lf[0], np.sum(
        (abs(np.fft.fft(res[0]) / n)**2 / psd)[:lf]))
    c.frame()


@contract("X03", [N + "get_slope_dc_template_nsmb"])
def slope(c):
    n = c.int("samples", lo=1, hi=None if not c.concrete else 400)
    b, shifts = ns.get_slope_dc_template_nsmb(n)
    k = c.index("k", n)
    c.check("two columns", b.shape[1] == 2)
    c.check("one row per sample", b.shape[0] == n)
    c.eq("slope", b[k, 0], k / n)
    c.eq("constant", b[k, 1], 1)
    for i in range(2):
        c.check("no shift", np.isnan(shifts[i]))
    c.frame()


def wrong(x, con):
    """the sign of the amplitude is not allowed, or the amplitude is zero"""
    return (x == 0) | ((x < 0) & (con == 1)) | ((x > 0) & (con == -1))


@contract("X04", [N + "_index_disallowed"])
def disallowed(c):
    n = c.choice("amplitudes", [1, 2, 3])
    x = c.array("amplitudes x", n, gen=lambda r, q: r.integers(-2, 3, q) * 1.0)
    con = c.array("constraint", n, dtype="i", lo=-1, hi=1)
    i = c.choice("i", list(range(n)))
    flat = c.flag("one axis")
    out = ns._index_disallowed(x if flat else x[:, None], con)
    c.eq("one for each amplitude to force to zero", out[i],
         np.where(wrong(x[i], con[i]), 1, 0))
    c.frame()


def replace_disallowed(c, nb):
    """the callee by its contract: the outcome of every comparison is decided"""
    def f(x, con):
        x = np.reshape(x, (nb,))
        bits = []
        for i in range(nb):
            b = wrong(x[i], con[i])
            bits.append(1 if b else 0)
        return np.array(bits)
    c.replace(ns, "_index_disallowed", f)


@contract("X04", [N + "of_mb"])
def backgrounds_only(c):
    n = c.int("samples", lo=2, hi=None if not c.concrete else 9)
    nb = c.choice("backgrounds", [1, 2])
    m = nb + 1
    fs = c.real("fs", pos=True, gen=u(1, 10))
    y = c.array("pulse", n)
    phi = c.array("phi", (m, n), real=False)
    F = c.array("spectra", (m, n), real=False)
    T = c.array("templates", (n, m))
    B = c.array("B", (nb, nb))
    psd = c.array("psd", n, pos=True, gen=lambda r, q: r.uniform(.5, 2, q))
    con = None if c.flag("no constraint") else c.array(
        "constraint", nb, dtype="i", lo=-1, hi=1)
    lf = c.int("low frequency bins", lo=1, hi=None if not c.concrete else 9)
    c.assume(lf <= n)
    if not c.concrete:
        replace_disallowed(c, nb)
    amp, chi2, chi2lf = ns.of_mb(y, phi, F, T, np.linalg.pinv(B), B,
                                 psd[None, :], fs, 1, nb, lfindex=lf,
                                 bkgpolarityconstraint=con)
    amp = np.reshape(amp, (nb,))
    yf = np.fft.fft(y) / n
    for i in range(nb):
        if con is not None:
            c.check("positive amplitude %d" % i,
                    c.either(con[i] != 1, amp[i] >= 0))
            c.check("negative amplitude %d" % i,
                    c.either(con[i] != -1, amp[i] <= 0))
    on = [i for i in range(nb) if amp[i] != 0]
    q = [np.sum(phi[i + 1] * yf).real for i in on]
    iB = np.linalg.pinv(B[np.ix_(on, on)]) if on else []
    for k, i in enumerate(on):
        c.eq("fit of the templates in use %d" % i, amp[i],
             sum(iB[k][j] * q[j] for j in range(len(on))))
    r = y - sum(amp[i] * T[:, i + 1] for i in range(nb))
    p = abs(np.fft.fft(r) / n)**2 / psd
    c.eq("chi-squared", chi2[0], np.sum(p))
    c.eq("low-frequency chi-squared", chi2lf[0], np.sum(p[:lf]))
    c.frame()


@contract("X04", [N + "of_nsmb_getPt"])
def masked(c):
    n = c.int("samples", lo=1, hi=None if not c.concrete else 9)
    nb = c.choice("backgrounds", [1, 2])
    m = nb + 1
    P = c.array("P", (m, m, n))
    Pfs = c.array("Pfs", (m, m))
    t = c.index("delay", n)
    mask = [c.choice("mask %d" % i, [0, 1]) for i in range(m)]
    on = [i for i in range(m) if mask[i]]
    if c.flag("by number"):
        out, inv = ns.of_nsmb_getPt(Pfs, P, combind=1, bindelay=t,
                                    bitcomb=[[0] * m, mask])
    else:
        out, inv = ns.of_nsmb_getPt(Pfs, P, bindelay=t,
                                    bitmask=np.array(mask))
    c.check("size", out.shape == (len(on), len(on)))
    want = np.zeros((len(on), len(on)))
    for a, i in enumerate(on):
        for b, j in enumerate(on):
            if (i == 0) == (j == 0):
                v = Pfs[i, j]
            else:
                v = P[0, max(i, j), t]
            c.eq("overlap %d %d" % (i, j), out[a, b], v)
            want[a, b] = v
    if on:
        iw = np.linalg.pinv(want)
        for a in range(len(on)):
            for b in range(len(on)):
                c.eq("inverse %d %d" % (a, b), inv[a, b], iw[a, b])
    c.frame()


@contract("X05", [N + "_interpchi2"])
def vertex(c):
    n = c.int("samples", lo=3, hi=None if not c.concrete else 9)
    i = c.int("best", lo=1, hi=None if not c.concrete else 7)
    c.assume(i < n - 1)
    x = c.array("chi2", n)
    a = c.array("amplitude", n)
    dt = c.real("dt", pos=True, gen=u(.1, 1))
    t = np.arange(n) * dt
    bend = x[i - 1] - 2 * x[i] + x[i + 1]
    c.assume(bend > .01 if c.concrete else bend != 0)
    tm, cm, am = ns._interpchi2(i, x, a, t)
    d = (x[i - 1] - x[i + 1]) / (2 * bend)      # in samples

    def parabola(y, d):
        return y[i] + (y[i + 1] - y[i - 1]) / 2 * d + (
            y[i - 1] - 2 * y[i] + y[i + 1]) / 2 * d**2
    c.eq("time of the vertex", tm, (i + d) * dt, tol=1e-6)
    c.eq("chi-squared at the vertex", cm, parabola(x, d), tol=1e-6)
    c.eq("amplitude at the vertex", am, parabola(a, d), tol=1e-6)
    c.frame()


@contract("X05", [N + "of_nsmb_con"])
def constrained(c):
    """without constraints: the plain fit"""
    n = c.int("samples", lo=3, hi=None if not c.concrete else 9)
    nb = c.choice("backgrounds", [1, 2])
    m = nb + 1
    fs = c.real("fs", pos=True, gen=u(1, 10))
    y = c.array("pulse", n)
    phi = c.array("phi", (m, n), real=False)
    F = c.array("spectra", (m, n), real=False)
    T = c.array("templates", (n, m))
    P = c.array("P", (m, m, n))
    Pfs = c.array("Pfs", (m, m))
    psd = c.array("psd", n, pos=True, gen=lambda r, q: r.uniform(.5, 2, q))
    w = c.int("window", lo=1, hi=None if not c.concrete else 5)
    win = c.array("allowed delays", w, dtype="i")
    lf = c.int("low frequency bins", lo=1, hi=None if not c.concrete else 9)
    c.assume(lf <= n)
    yf = np.fft.fft(y) / n

    def q(i, t):
        x = phi[i] * yf
        return np.fft.ifft(x)[t].real * n if i == 0 else np.sum(x).real

    def Pt(t):
        out = np.zeros((m, m))
        for i in range(m):
            for j in range(m):
                out[i, j] = Pfs[i, j] if (i == 0) == (j == 0) else \
                    P[0, max(i, j), t]
        return out

    def a(i, t):
        inv = np.linalg.pinv(Pt(t))
        return sum(inv[i, j] * q(j, t) for j in range(m))

    def chi(t):
        return np.sum(abs(yf)**2 / psd) - sum(
            a(i, t) * q(i, t) for i in range(m))
    if not c.concrete:
        def getPt(Pfs_, P_, combind=0, bindelay=0, bitcomb=None,
                  bitmask=None):
            # contract of of_nsmb_getPt (X04), all templates in use
            bits = bitmask if bitmask is not None else bitcomb[combind]
            for i in range(m):
                c.check("all templates", bits[i] == 1)
            p = Pt(bindelay)
            return p, np.linalg.pinv(p)
        c.override(N + "of_nsmb_getPt", getPt)

        def disallowed(x, con):
            # contract of _index_disallowed (X04) for numbers other than zero
            x = np.reshape(x, (m,))
            return np.array([1 if c.same(x[i], 0) else 0 for i in range(m)])
        c.override(N + "_index_disallowed", disallowed)
        def interp(i, x, am, t):
            # contract of _interpchi2 (vertex): functions of its arguments
            calls.append((i, x, am, t))
            return tuple(c.fresh_real("vertex %d" % j) for j in range(3))
        c.override(N + "_interpchi2", interp)
    calls = []
    bits = [[i >> (m - 1 - j) & 1 for j in range(m)] for i in range(2**m)]
    r = ns.of_nsmb_con(y, phi, Pfs, P, F, T, psd[None, :], fs,
                       [win[None, :]], 1, nb, bits, lfindex=lf)
    amp, t0, chi2, chi2lf, res = r[:5]
    d = c.to_int("whole samples", t0[0] * fs)
    c.check("signed delay", c.both(2 * d <= n, 2 * d >= -n))
    t = d + n if d < 0 else d
    c.check("an allowed delay", np.any(win % n == t))
    k = c.index("allowed", w)
    c.le("no allowed delay is better", chi(t), chi(win[k] % n))
    i = c.choice("i", list(range(m)))
    c.eq("amplitudes at the delay", amp[i], a(i, t))
    om = 2 * np.pi * np.fft.fftfreq(n, 1 / fs)
    rf = yf - a(0, t) * F[0] * np.exp(-1j * om * t0[0]) - sum(
        a(j, t) * F[j] for j in range(1, m))
    s = c.index("sample", n)
    c.eq("residual", res[0, s], np.fft.ifft(rf)[s].real * n)
    p = abs(np.fft.fft(res[0]) / n)**2 / psd
    c.eq("chi-squared of the residual", chi2[0], np.sum(p))
    c.eq("low-frequency chi-squared", chi2lf[0], np.sum(p[:lf]))
    for j, x in enumerate(r[5:8] + r[11:]):
        c.check("no further windows %d" % j, x.shape[-1] == 0)
    am, tm, cm = r[8:11]
    if c.either(t == 0, t == n - 1):
        c.eq("not interpolated at the edge: time", tm, d / fs)
        c.eq("not interpolated at the edge: amplitude", am, amp[0])
        c.eq("not interpolated at the edge: chi-squared", cm, chi(t))
    elif not c.concrete:
        j, x, al, tt = calls[0]
        c.eq("interpolated around the best delay", j, t)
        s = c.index("delay", n)
        c.eq("interpolated chi-squared", x[s], chi(s))
        c.eq("interpolated amplitude", al[s], a(0, s))
        c.eq("times", tt[s], s / fs)
    c.frame()


@contract("X06", [N + "of_nsmb_con"])
def polarity(c):
    c.bounded("selection of templates at every delay in a loop")
    n = c.int("samples", lo=4, hi=None if not c.concrete else 12)
    nb = c.choice("backgrounds", [1, 2, 3, 4, 5])
    m = nb + 1
    fs = c.real("fs", pos=True, gen=u(1, 10))
    y = c.array("pulse", n)
    s = c.array("signal template", n)
    b = c.array("background templates", (n, nb))
    if c.concrete and c.flag("alike"):
        b = b + c.array("common part", (n, 1)) * 1.5
    psd = c.array("psd", n, pos=True, gen=lambda r, q: r.uniform(.5, 2, q))
    psddnu, phi, Pfs, P, F, T, iB, B, nsig, nbkg, bits, lf = \
        ns.of_nsmb_setup(s, b, psd, fs)
    con = c.array("constraint", m, dtype="i", lo=-1, hi=1)
    w = c.int("window", lo=1, hi=None if not c.concrete else 5)
    win = c.array("allowed delays", w, dtype="i")

    def fit(w):
        return ns.of_nsmb_con(y, phi, Pfs, P, F.T, T, psddnu.T, fs,
                              [w[None, :]], 1, nb, bits,
                              sigpolarityconstraint=con[:1],
                              bkgpolarityconstraint=con[1:])
    r = fit(win)
    amp, t0, chi2, chi2lf, res = r[:5]
    for i in range(m):
        c.check("positive amplitude", c.either(con[i] != 1, amp[i] >= 0))
        c.check("negative amplitude", c.either(con[i] != -1, amp[i] <= 0))
    d = c.to_int("whole samples", t0[0] * fs)
    c.check("an allowed delay", np.any(win % n == d % n))
    total = np.sum(abs(np.fft.fft(y) / n)**2 / psddnu[:, 0])
    for k in range(len(win)):
        c.le("no allowed delay is better", chi2[0], fit(win[k:k + 1])[2][0],
             tol=1e-6, scale=total)
    k = c.index("sample", n)
    c.eq("residual", res[0, k], y[k] - amp[0] * s[(k - d) % n]
         - sum(amp[i] * b[k, i - 1] for i in range(1, m)), tol=1e-6,
         scale=np.max(abs(y)))
    c.eq("chi-squared of the residual", chi2[0], np.sum(
        abs(np.fft.fft(res[0]) / n)**2 / psddnu[:, 0]), tol=1e-6,
        scale=np.sum(abs(np.fft.fft(y) / n)**2 / psddnu[:, 0]))
    c.frame()
