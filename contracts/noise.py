"""Contracts of the noise tools (qetpy/core/_noise.py)."""
import numpy as np
from contracts.base import contract
from qetpy.core import _noise as noise

N = "qetpy.core._noise:"


def u(lo, hi):
    return lambda r: r.uniform(lo, hi)


def traces(c, n):
    """one trace or several"""
    if c.flag("several traces"):
        m = c.int("ntraces", lo=1, hi=None if not c.concrete else 5)
        x = c.array("x", (m, n))
        return x, np.mean(np.abs(np.fft.fft(x))**2, axis=0), \
            np.mean(np.sum(x**2, axis=1))
    x = c.array("x", n)
    return x, np.abs(np.fft.fft(x))**2, np.sum(x**2)


@contract("N01", [N + "calc_psd", N + "foldpsd"])
def power_spectrum(c):
    n = c.int("n", lo=1)
    fs = c.real("fs", pos=True, gen=u(1, 1e5))
    x, F2, power = traces(c, n)
    f, two = noise.calc_psd(x, fs, folded_over=False)
    c.eq("frequencies", f, np.fft.fftfreq(n, d=1 / fs))
    c.eq("two-sided density", two, F2 / (n * fs))
    c.eq("power is conserved (two-sided)", np.sum(two) * fs / n, power / n)
    g, one = noise.calc_psd(x, fs)
    c.check("one-sided length", len(one) == n // 2 + 1)
    c.check("as many frequencies as values", len(g) == n // 2 + 1)
    k = c.index("k", n // 2 + 1)
    c.eq("one-sided frequency", g[k], k * fs / n)
    single = c.either(k == 0, 2 * k == n)
    c.eq("one-sided density", one[k], c.ite(
        single, F2[k] / (n * fs), 2 * F2[k] / (n * fs)))
    h, fold = noise.foldpsd(two, fs)
    c.eq("folding the two-sided density gives the one-sided one", fold, one)
    c.eq("same frequencies", h, g)
    c.frame()


def symmetric(c, n):
    """a two-sided density of a real signal"""
    half = c.array("half", n, nonneg=True)
    return (half + half[(-np.arange(n)) % n]) / 2


@contract("N01", [N + "foldpsd"])
def folding(c):
    n = c.int("n", lo=1)
    fs = c.real("fs", pos=True, gen=u(1, 1e5))
    two = symmetric(c, n)
    g, one = noise.foldpsd(two, fs)
    c.eq("no power is lost or counted twice", np.sum(one), np.sum(two))
    c.frame()


class Randn:
    """standard normal numbers: any array of the requested shape"""

    def __init__(self, c):
        self.c = c
        self.calls = []
        c.stub("numpy.random.randn", self.randn)
        c.stub("numpy.random.standard_normal", self.standard_normal)
        c.stub("numpy.random.normal", self.normal)

    def standard_normal(self, size=None):
        v = self.c.array("vals%d" % len(self.calls), size, frozen=False)
        self.calls.append(1 * v)
        return v

    def randn(self, *shape):
        return self.standard_normal(shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


@contract("N02", [N + "gen_noise"])
def generated_noise(c):
    n = c.int("n", lo=1)
    m = c.int("ntraces", lo=1, hi=None if not c.concrete else 4)
    fs = c.real("fs", pos=True, gen=u(1, 1e5))
    psd = symmetric(c, n)
    want = psd
    if c.flag("infinite at DC"):
        psd = 1 * psd
        psd[0] = np.inf
        want = 1 * psd
        want[0] = 0
    before = 1 * psd
    r = Randn(c)
    out = noise.gen_noise(psd, fs=fs, ntraces=m)
    c.assume(len(r.calls) == 1)
    v = r.calls[0]
    c.check("shape", out.shape == (m, n))
    i = c.index("trace", m)
    c.eq("each trace is white noise coloured by the density",
         np.fft.fft(out[i]), np.fft.fft(v[i]) * np.sqrt(want * fs))
    if n > 1:
        c.eq("the given density is not modified", psd[1:], before[1:])
    c.eq("the given density is not modified (DC)", psd[0] == np.inf,
         before[0] == np.inf)


def channels(c, lo=1):
    n = c.int("n", lo=2)
    m = c.int("ntraces", lo=2, hi=None if not c.concrete else 4)
    nc = c.choice("channels", [1, 2, 3][lo - 1:])
    fs = c.real("fs", pos=True, gen=u(1, 1e5))
    gain = c.real("gain", pos=True, gen=u(.5, 2))
    names = ["a", "b", "c"][:nc]
    if nc == 1 and c.flag("2-D traces"):
        raw = c.array("traces", (m, n))
        x = raw[:, None, :] / gain
    else:
        raw = c.array("traces", (m, nc, n))
        x = raw / gain
    return n, m, nc, fs, names, raw, gain, x


@contract("N03", [N + "Noise.__init__", N + "Noise.calculate_psd"])
def noise_psd(c):
    n, m, nc, fs, names, raw, gain, x = channels(c)
    obj = noise.Noise(raw, fs, names, tracegain=gain)
    c.eq("traces in units of the gain", obj.traces, x)
    c.eq("time", obj.time, np.arange(n) / fs)
    obj.calculate_psd()
    k = c.index("k", n // 2 + 1)
    c.check("shape", obj.psd.shape == (nc, n // 2 + 1))
    c.check("one frequency per value", len(obj.freqs) == n // 2 + 1)
    c.eq("frequency", obj.freqs[k], k * fs / n)
    for i in range(nc):
        f, one = noise.calc_psd(x[:, i], fs)
        c.eq("density of channel %d" % i, obj.psd[i], one)
        c.eq("real and imaginary part add up (channel %d)" % i,
             obj.real_psd[i] + obj.imag_psd[i], obj.psd[i])
        z = np.mean(np.real(np.fft.rfft(x[:, i]))**2, axis=0)[k] / (n * fs)
        c.eq("real part (channel %d)" % i, obj.real_psd[i][k],
             c.ite(c.either(k == 0, 2 * k == n), z, 2 * z))
    e, _ = c.raises(lambda: noise.Noise(raw, fs, names + ["more"]),
                    ValueError)
    c.check("wrong number of names is refused", e is not None)
    e, _ = c.raises(lambda: noise.Noise(x[0, 0], fs, ["a"]), ValueError)
    c.check("a single trace is refused", e is not None)
    c.frame()


@contract("N04", [N + "Noise.remove_trace_slope",
                  "qetpy.utils._utils:slope"])
def detrended(c):
    n, m, nc, fs, names, raw, gain, x = channels(c)
    obj = noise.Noise(raw, fs, names, tracegain=gain)
    t = obj.time
    tc = t - np.mean(t)
    obj.remove_trace_slope()
    c.check("shape", obj.traces.shape == x.shape)
    i = c.index("trace", m)
    for j in range(nc):
        out = obj.traces[i, j]
        s = np.sum(tc * (x[i, j] - np.mean(x[i, j])))
        c.eq("only a straight line through the origin is removed (%d)" % j,
             (x[i, j] - out) * np.sum(tc**2), s * t,
             scale=np.sum(tc**2) * np.sum(np.abs(x[i, j])))
        c.eq("no slope is left (%d)" % j,
             np.sum(tc * (out - np.mean(out))), 0,
             scale=np.sum(np.abs(tc)) * np.sum(np.abs(x[i, j])))
    c.frame()


class Csd:
    """scipy.signal.csd: some sesquilinear hermitian function of the pair;
    calls with the same traces and arguments agree"""

    def __init__(self, c, n, nf, fs):
        self.c = c
        self.n = n
        self.nf = nf
        self.fs = fs
        self.w = c.array("window", n)
        c.stub("scipy.signal.csd", self)

    def __call__(self, x, y, fs=1.0, nperseg=None, nfft=None):
        self.c.assume(self.c.both(nperseg == self.n, nfft == self.n))
        return np.arange(self.nf) * fs / self.n, self.of(x, y)

    def of(self, x, y):
        z = np.conj(np.fft.rfft(x * self.w)) * np.fft.rfft(y * self.w)
        return 2 * z / self.fs


@contract("N05", [N + "Noise.calculate_csd"])
def cross_spectra(c):
    n, m, nc, fs, names, raw, gain, x = channels(c, lo=2)
    nf = n // 2 + 1
    cs = Csd(c, n, nf, fs)
    # contract of fill_negatives (U04): positive entries are kept
    c.override("qetpy.core._noise:fill_negatives", lambda a: np.where(
        a > 0, a, c.fresh_array("filled", nf)))
    obj = noise.Noise(raw, fs, names, tracegain=gain)
    obj.calculate_csd()
    c.check("shape", obj.csd.shape == (nc, nc, nf))
    f = c.index("frequency", nf)
    for i in range(nc):
        for j in range(nc):
            z = np.array([cs.of(x[k, i], x[k, j]) for k in range(m)]) \
                if c.concrete else cs.of(x[:, i], x[:, j])
            c.eq("mean cross spectrum %d%d" % (i, j), obj.csd[i][j],
                 np.mean(z, axis=0))
            if i + j > 1:
                continue
            for what, got, want in (
                    ("real part", obj.real_csd, np.mean(z.real, axis=0)),
                    ("imaginary part", obj.imag_csd, np.mean(z.imag, axis=0)),
                    ("spread of the real part", obj.real_csd_std,
                     np.std(z.real, axis=0)),
                    ("spread of the imaginary part", obj.imag_csd_std,
                     np.std(z.imag, axis=0))):
                c.eq("%s %d%d" % (what, i, j),
                     c.ite(want[f] > 0, got[i][j][f], 0),
                     c.ite(want[f] > 0, want[f], 0))
    c.eq("hermitian", obj.csd[0][1], np.conj(obj.csd[1][0]))
    c.frame()


@contract("N05", [N + "Noise.calculate_csd"])
def one_channel_csd(c):
    n, m, nc, fs, names, raw, gain, x = channels(c)
    c.assume(nc == 1)
    obj = noise.Noise(raw, fs, names, tracegain=gain)
    e, _ = c.raises(obj.calculate_csd, ValueError)
    c.check("cross spectra of one channel are refused", e is not None)
    e, _ = c.raises(obj.calculate_corrcoeff, ValueError)
    c.check("correlations of one channel are refused", e is not None)


@contract("N06", [N + "Noise.calculate_uncorr_noise"])
def decorrelated(c):
    n, m, nc, fs, names, raw, gain, x = channels(c, lo=2)
    c.assume(nc == 2)
    nf = n // 2 + 1
    obj = noise.Noise(raw, fs, names, tracegain=gain)
    # a hermitian, positive definite cross spectral density
    a = c.array("a", nf, pos=True)
    b = c.array("b", nf, pos=True)
    z = c.array("re", nf) + 1j * c.array("im", nf)
    csd = np.zeros((2, 2, nf), dtype=complex)
    csd[0, 0] = a
    csd[0, 1] = z
    csd[1, 0] = np.conj(z)
    csd[1, 1] = b + np.abs(z)**2 / a
    real = np.real(csd) * 1
    if c.flag("computed on demand"):
        def calculate_csd(self):
            self.csd = csd
            self.real_csd = real
        c.replace(noise.Noise, "calculate_csd", calculate_csd)
    else:
        obj.csd = csd
        obj.real_csd = real
    obj.calculate_uncorr_noise()
    c.eq("noise left in channel 0", obj.uncorrnoise[0],
         a - np.abs(z)**2 / csd[1, 1])
    c.eq("noise left in channel 1", obj.uncorrnoise[1], b)
    for i in range(2):
        c.eq("both parts add up %d" % i, obj.uncorrnoise[i]
             + obj.corrnoise[i], real[i, i])


@contract("N06", [N + "Noise.calculate_corrcoeff"])
def correlations(c):
    n, m, nc, fs, names, raw, gain, x = channels(c, lo=2)
    obj = noise.Noise(raw, fs, names, tracegain=gain)
    obj.calculate_corrcoeff()
    nf = n // 2 + 1
    c.check("shape", obj.corrcoeff.shape == (nc, nc, nf))
    k = c.index("k", nf)
    for i in range(nc):
        for j in range(nc):
            p = np.abs(np.fft.rfft(x[:, i]))[:, k]
            q = np.abs(np.fft.rfft(x[:, j]))[:, k]
            p = p - np.mean(p)
            q = q - np.mean(q)
            c.assume(c.both(np.sum(p * p) > 0, np.sum(q * q) > 0))
            c.eq("correlation of the amplitudes of channels %d and %d"
                 % (i, j), obj.corrcoeff[i][j][k] * np.sqrt(
                     np.sum(p * p) * np.sum(q * q)), np.sum(p * q),
                 scale=np.sqrt(np.sum(p * p) * np.sum(q * q)))
    c.frame()


@contract("N07", [N + "smooth_psd"])
def smoothed(c):
    n = c.int("n", lo=2)
    psd = symmetric(c, n)
    nf = n // 2 + 1
    dec = c.array("decreasing", nf)
    seen = []

    def make_decreasing(y, x=None):
        seen.append(1 * y)
        return dec
    c.override("qetpy.core._noise:make_decreasing", make_decreasing)
    out = noise.smooth_psd(psd)
    if c.concrete:
        from qetpy.utils import make_decreasing as md
        try:
            dec = md(psd[:nf])
        except ValueError:
            c.assume(False)
    else:
        c.check("one call", len(seen) == 1)
        c.eq("the one-sided part is made decreasing", seen[0], psd[:nf])
    c.check("length", len(out) == n)
    k = c.index("k", nf)
    c.eq("one-sided part", out[k], dec[k])
    if k > 0:
        c.eq("symmetric", out[n - k], dec[k])
    c.frame()
