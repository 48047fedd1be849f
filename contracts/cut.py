"""Contracts of the event selection (qetpy/cut/_cut.py)."""
import numpy as np
from contracts.base import contract
from qetpy.cut import _cut as cuts
from scipy.stats import skew

K = "qetpy.cut._cut:"


def u(lo, hi):
    return lambda r: r.uniform(lo, hi)


def sample(c, name, n):
    """numbers, in run-time executions with outliers"""
    x = c.array(name, n)
    if c.concrete:
        x = x * 10.0**c.int("scale", lo=-8, hi=2)
        for i in range(c.int("outliers", lo=0, hi=4)):
            x[c.index("o%d" % i, n)] *= 50
    return x


@contract("K01", [K + "iterstat"])
def iterated(c):
    n = c.int("n", lo=1, hi=None if not c.concrete else 60)
    x = sample(c, "data", n)
    ncut = c.real("cut", pos=True, gen=u(1, 4))
    prec = c.real("precision", pos=True, gen=u(10, 1e5))
    mean, std, mask = cuts.iterstat(x, cut=ncut, precision=prec)
    c.check("one entry per value", len(mask) == n)
    kept = x[mask]
    c.eq("mean of the kept values", mean, np.mean(kept))
    c.eq("standard deviation of the kept values", std, np.std(kept))
    if not np.all(mask):
        k = c.index("k", n)
        slack = (1 + ncut) * np.std(x) / prec
        d = np.abs(x[k] - mean)
        if mask[k]:
            c.le("kept values are close to the mean", d, ncut * std + slack)
        else:
            c.le("cut values are far from the mean", ncut * std - slack, d)
    c.frame()


@contract("K03", [K + "removeoutliers"])
def inliers(c):
    n = c.int("n", lo=1, hi=None if not c.concrete else 60)
    x = sample(c, "x", n)
    if c.concrete and c.flag("round numbers"):
        x = np.rint(2 * x)
    goal = c.real("skewtarget", pos=True, gen=u(.01, 1))
    top = c.int("maxiter", lo=1, hi=None if not c.concrete else 30)
    i, j, k = c.index("i", n), c.index("j", n), c.index("k", n)
    c.assume(c.both(x[i] <= x[j], x[j] <= x[k]))
    # no gaps: a value between two inliers is an inlier
    c.loop_invariant(lambda v: c.either(c.neg(c.both(v[i], v[k])), v[j]))
    mask = cuts.removeoutliers(x, maxiter=top, skewtarget=goal)
    c.check("one entry per value", len(mask) == n)
    if c.both(mask[i], mask[k]):
        c.check("no gaps", mask[j])
    if skew(x) <= goal:
        c.check("nothing is removed from an unskewed sample", mask[j])
    c.frame()


@contract("K02", [K + "itercov"])
def covariance(c):
    n = c.int("n", lo=2 if not c.concrete else 5,
              hi=None if not c.concrete else 40)
    how = c.choice("arguments", ["two", "three", "one array"])
    nd = 3 if how == "three" else 2
    data = c.array("data", (nd, n))
    if c.concrete:
        for i in range(c.int("outliers", lo=0, hi=3)):
            data = 1 * data
            data[:, c.index("o%d" % i, n)] *= 30
    if not c.concrete:
        c.stub("scipy.stats.chi2.ppf", lambda q, df: c.real("chi2", pos=True))
    if how != "two":
        kw = {"threshold": c.real("threshold", pos=True, gen=u(.5, 4))}
    else:
        kw = {}
    ns = c.real("nsigma", pos=True, gen=u(.5, 4))
    fe = c.real("frac_err", pos=True, gen=u(1e-6, 1e-2))
    top = c.int("maxiter", lo=1, hi=None if not c.concrete else 20)
    if how == "one array":
        args = (data.T,)
    else:
        args = tuple(data[i] for i in range(nd))
    e, r = c.raises(lambda: cuts.itercov(*args, nsigma=ns, frac_err=fe,
                                         maxiter=top, **kw),
                    np.linalg.LinAlgError)
    if e is not None:
        return      # the events kept by an iteration are on a line
    mean, cov, mask = r
    c.check("one entry per event", len(mask) == n)
    m = np.sum(mask)
    for i in range(nd):
        c.eq("mean %d of the kept events" % i, mean[i],
             np.mean(data[i][mask]))
    c.check("shape of the covariance", cov.shape == (nd, nd))
    if m > 1:
        for i in range(nd):
            for j in range(nd):
                a = data[i][mask]
                b = data[j][mask]
                c.eq("covariance %d%d of the kept events" % (i, j),
                     cov[i, j] * (m - 1),
                     np.sum((a - np.mean(a)) * (b - np.mean(b))))
    c.frame()


@contract("K02", [K + "itercov"])
def covariance_arguments(c):
    n = c.int("n", lo=2, hi=None if not c.concrete else 40)
    x = c.array("x", n)
    e, _ = c.raises(lambda: cuts.itercov(x), ValueError)
    c.check("one variable is refused", e is not None)
    e, _ = c.raises(lambda: cuts.itercov(1.0), ValueError)
    c.check("a number is refused", e is not None)


def by_contract(c, algo, want, n, **expected):
    """the outlier algorithm by its contract: an arbitrary choice among the
    values given to it, which have to be want(i).  Returns the function that
    tells which ones are kept"""
    if c.concrete:
        x = np.array([want(i) for i in range(n)])
        if algo == "removeoutliers":
            return cuts.removeoutliers(x)
        return cuts.iterstat(x, precision=1e4, **expected)[2]
    kept = []

    def given(x, **kw):
        i = c.index("outlier", n)
        c.check("one value per trace", len(x) == n)
        c.eq("value given to the outlier algorithm", x[i], want(i))
        for nm in kw:
            c.eq(nm + " of the outlier algorithm", kw[nm], expected[nm])
        if len(kept) == 0:
            kept.append(c.mask_like("kept", x))
        return kept[0]

    def one(x, maxiter=20, skewtarget=0.05):
        c.check("algorithm", algo == "removeoutliers")
        return given(x)

    def two(data, cut=3, precision=1000.0, return_unbiased_estimates=False):
        c.check("algorithm", algo == "iterstat")
        return c.fresh_real("m"), c.fresh_real("s"), given(data, cut=cut)
    c.override(K + "removeoutliers", one)
    c.override(K + "iterstat", two)
    return kept


def traces_of(c, m, n):
    x = c.array("traces", (m, n))
    if c.concrete:
        x = x + 10.0 * np.array([c.real("level%d" % i) for i in range(m)]
                                )[:, None]
    return x


def dummy(n, fs):
    """rise of 10 us, fall of 100 us, starting at the middle"""
    t = (np.arange(n) + 1 - round(n / 2)) / fs
    raw = (1 - np.exp(-t / 1e-5)) * np.exp(-t / 1e-4)
    raw[t < 0] = 0
    return raw / np.max(raw)


def ofamp_by_contract(c, n, fs):
    template = dummy(n, fs)
    want = (template, fs)

    def amplitude(signal, i):
        if c.concrete:
            return cuts.ofamp(signal, template, np.ones(n), fs)[i]
        return c.functional("ofamp%d" % i, signal)

    def contract_of(signal, template, inputpsd, fs, withdelay=True, **kw):
        k = c.index("k of ofamp", n)
        c.check("length of the template", len(template) == n)
        c.eq("template", template[k], want[0][k])
        c.eq("noise", inputpsd[k], 1)
        c.eq("sample rate", fs, want[1])
        return amplitude(signal, 0), c.fresh_real("t0"), amplitude(signal, 2)
    c.override(K + "ofamp", contract_of)
    return amplitude


@contract("K04", [K + "pileupcut"])
def pileup(c):
    m = c.int("m", lo=1, hi=None if not c.concrete else 12)
    n = c.int("n", lo=8, hi=None if not c.concrete else 40)
    fs = c.real("fs", pos=True, gen=u(1e5, 1e6))
    traces = traces_of(c, m, n)
    algo = c.choice("algorithm", ["removeoutliers", "iterstat"])
    nsig = c.real("nsig", pos=True, gen=u(1, 4))
    nomean = c.flag("removemeans")
    amp = ofamp_by_contract(c, n, fs)

    def want(i):
        x = traces[i]
        if nomean:
            x = x - np.mean(x)
        return np.abs(amp(x, 0))
    kept = by_contract(c, algo, want, m, cut=nsig)
    r = cuts.pileupcut(traces, fs=fs, outlieralgo=algo, nsig=nsig,
                       removemeans=nomean)
    k = c.index("k", m)
    c.check("one entry per trace", len(r) == m)
    if not c.concrete:
        kept = kept[0]
    c.check("the traces kept", bool(r[k]) == bool(kept[k]))
    c.frame()


def whole(x):
    return np.floor(x)


def mean_of(x, a, b):
    return np.mean(x[int(a):int(b)])


def begin_of(c, m, n, didv):
    """(traces, fs, sgfreq, first part of a trace, last part of a trace)"""
    if not didv:
        fs = c.real("fs", pos=True, gen=u(1e5, 1e6))
        return fs, 200.0, (0, n // 10), ((9 * n) // 10, n)
    fs = c.real("fs", pos=True, gen=u(1e5, 1e6))
    per = c.real("bins per period", pos=True, gen=u(16, 40))
    c.assume(per >= 16)
    c.assume(per <= n)
    sg = fs / per
    if np.floor(n / per) > 1:
        last = (np.floor(n / per) - 1) * per
        return (fs, sg, (np.floor(per / 4), np.floor(3 * per / 8)),
                (np.floor(last + per / 4), np.floor(last + 3 * per / 8)))
    return (fs, sg, (np.floor(per / 4), np.floor(5 * per / 16)),
            (np.floor(5 * per / 16), np.floor(3 * per / 8)))


@contract("K05", [K + "slopecut"])
def slope(c):
    m = c.int("m", lo=1, hi=None if not c.concrete else 12)
    n = c.int("n", lo=20, hi=None if not c.concrete else 90)
    traces = traces_of(c, m, n)
    algo = c.choice("algorithm", ["removeoutliers", "iterstat"])
    nsig = c.real("nsig", pos=True, gen=u(1, 4))
    didv = c.flag("didv")
    fs, sg, first, last = begin_of(c, m, n, didv)

    def want(i):
        return mean_of(traces[i], *last) - mean_of(traces[i], *first)
    kept = by_contract(c, algo, want, m, cut=nsig)
    r = cuts.slopecut(traces, fs=fs, outlieralgo=algo, nsig=nsig,
                      is_didv=didv, sgfreq=sg)
    k = c.index("k", m)
    c.check("one entry per trace", len(r) == m)
    if not c.concrete:
        kept = kept[0]
    c.check("the traces kept", bool(r[k]) == bool(kept[k]))
    c.frame()


@contract("K05", [K + "baselinecut"])
def baseline(c):
    m = c.int("m", lo=1, hi=None if not c.concrete else 12)
    n = c.int("n", lo=20, hi=None if not c.concrete else 90)
    traces = traces_of(c, m, n)
    algo = c.choice("algorithm", ["removeoutliers", "iterstat"])
    nsig = c.real("nsig", pos=True, gen=u(1, 4))
    didv = c.flag("didv")
    fs, sg, first, last = begin_of(c, m, n, didv)

    def want(i):
        return mean_of(traces[i], *first)
    kept = by_contract(c, algo, want, m, cut=nsig)
    r = cuts.baselinecut(traces, fs=fs, outlieralgo=algo, nsig=nsig,
                         is_didv=didv, sgfreq=sg)
    k = c.index("k", m)
    c.check("one entry per trace", len(r) == m)
    if not c.concrete:
        kept = kept[0]
    c.check("the traces kept", bool(r[k]) == bool(kept[k]))
    c.frame()


@contract("K04", [K + "chi2cut"])
def goodness(c):
    m = c.int("m", lo=1, hi=None if not c.concrete else 12)
    n = c.int("n", lo=8, hi=None if not c.concrete else 40)
    fs = c.real("fs", pos=True, gen=u(1e5, 1e6))
    traces = traces_of(c, m, n)
    algo = c.choice("algorithm", ["removeoutliers", "iterstat"])
    nsig = c.real("nsig", pos=True, gen=u(1, 4))
    amp = ofamp_by_contract(c, n, fs)
    kept = by_contract(c, algo, lambda i: amp(traces[i], 2), m, cut=nsig)
    r = cuts.chi2cut(traces, fs=fs, outlieralgo=algo, nsig=nsig)
    k = c.index("k", m)
    c.check("one entry per trace", len(r) == m)
    if not c.concrete:
        kept = kept[0]
    c.check("the traces kept", bool(r[k]) == bool(kept[k]))
    c.frame()


@contract("K04", [K + "pileupcut", K + "slopecut", K + "baselinecut",
                  K + "chi2cut"])
def unknown_algorithm(c):
    m = c.int("m", lo=1, hi=None if not c.concrete else 8)
    n = c.int("n", lo=20, hi=None if not c.concrete else 40)
    fs = c.real("fs", pos=True, gen=u(1e5, 1e6))
    traces = traces_of(c, m, n)
    ofamp_by_contract(c, n, fs)
    f = c.choice("cut", [cuts.pileupcut, cuts.slopecut, cuts.baselinecut,
                         cuts.chi2cut])
    e, _ = c.raises(lambda: f(traces, fs=fs, outlieralgo="mean"), ValueError)
    c.check("refused", e is not None)
    c.frame()


@contract("K06", [K + "autocuts"])
def selection(c):
    m = c.int("m", lo=1, hi=None if not c.concrete else 30)
    n = c.int("n", lo=20, hi=None if not c.concrete else 40)
    fs = c.real("fs", pos=True, gen=u(1e5, 1e6))
    traces = traces_of(c, m, n)
    on = [c.flag("pileup1"), c.flag("slope"), c.flag("baseline"),
          c.flag("pileup2"), c.flag("chi2")]
    didv = c.flag("didv")
    sg = c.real("sgfreq", pos=True, gen=u(.02, .05))
    if c.concrete:
        sg = sg * fs
    symm = not c.concrete
    nsig = [c.real("nsig%d" % i, pos=True, gen=u(2, 4)) for i in range(5)]
    algo = "iterstat"
    used = on[:3] + [on[3] and didv, on[4]]
    left = [np.arange(m)]
    stages = [0]

    def chosen(s, x, fs_, algo_, nsig_):
        while stages[0] < s:
            c.check("cut asked for", not used[stages[0]])
            stages[0] += 1
        c.check("order of the cuts, each at most once", stages[0] == s)
        c.check("cut asked for", used[s])
        stages[0] += 1
        c.eq("the traces left by the cuts before", x, traces[left[0]])
        c.eq("sample rate", fs_, fs)
        c.check("algorithm", algo_ == algo)
        c.eq("number of sigmas", nsig_, nsig[s])
        mask = c.mask_like("cut%d" % s, x)
        left[0] = left[0][mask]
        return mask

    def pile(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2,
             removemeans=False):
        return chosen(3 if removemeans else 0, traces, fs, outlieralgo, nsig)

    def slo(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2,
            is_didv=False, symmetrizeflag=False, sgfreq=100.0):
        c.check("flags of the slope cut", is_didv == didv and
                symmetrizeflag == symm)
        c.eq("frequency of the square wave", sgfreq, sg)
        return chosen(1, traces, fs, outlieralgo, nsig)

    def base(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2,
             is_didv=False, sgfreq=100.0):
        c.check("flags of the baseline cut", is_didv == didv)
        c.eq("frequency of the square wave", sgfreq, sg)
        return chosen(2, traces, fs, outlieralgo, nsig)

    def chi(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2):
        return chosen(4, traces, fs, outlieralgo, nsig)
    c.override(K + "pileupcut", pile)
    c.override(K + "slopecut", slo)
    c.override(K + "baselinecut", base)
    c.override(K + "chi2cut", chi)
    e, r = c.raises(lambda: cuts.autocuts(
        traces, fs=fs, is_didv=didv, sgfreq=sg, symmetrizeflag=symm,
        outlieralgo=algo, lgcpileup1=on[0], lgcslope=on[1],
        lgcbaseline=on[2], lgcpileup2=on[3], lgcchi2=on[4],
        nsigpileup1=nsig[0], nsigslope=nsig[1], nsigbaseline=nsig[2],
        nsigpileup2=nsig[3], nsigchi2=nsig[4]), IndexError)
    if c.concrete:
        if e is not None:
            return      # a cut has removed all traces
        calls = [lambda x: cuts.pileupcut(x, fs, algo, nsig[0]),
                 lambda x: cuts.slopecut(x, fs, algo, nsig[1], didv,
                                         sgfreq=sg),
                 lambda x: cuts.baselinecut(x, fs, algo, nsig[2], didv,
                                            sgfreq=sg),
                 lambda x: cuts.pileupcut(x, fs, algo, nsig[3], True),
                 lambda x: cuts.chi2cut(x, fs, "iterstat", nsig[4])]
        for s in range(5):
            if used[s]:
                left[0] = left[0][calls[s](traces[left[0]])]
    c.check("no exception", e is None)
    c.check("one entry per trace", len(r) == m)
    want = np.zeros(m, dtype=bool)
    want[left[0]] = True
    k = c.index("k", m)
    c.check("the traces kept", bool(r[k]) == bool(want[k]))
    c.frame()


@contract("K05", [K + "slopecut"])
def symmetric_slope(c):
    m = c.int("m", lo=1 if not c.concrete else 12,
              hi=None if not c.concrete else 30)
    n = c.int("n", lo=20, hi=None if not c.concrete else 40)
    traces = traces_of(c, m, n)
    fs = c.real("fs", pos=True, gen=u(1e5, 1e6))

    def slope_of(i):
        return (mean_of(traces[i], (9 * n) // 10, n)
                - mean_of(traces[i], 0, n // 10))
    first = []

    def chosen(vals):
        i = c.index("i", m)
        c.check("one slope per trace", len(vals) == m)
        c.eq("slopes", vals[i], slope_of(i))
        first.append(c.mask_like("symmetric", vals))
        return first[0]
    second = []

    def outliers(x, maxiter=20, skewtarget=0.05):
        c.eq("slopes of the symmetric sample", x, np.array(
            [slope_of(i) for i in range(m)])[first[0]])
        second.append(c.mask_like("kept", x))
        return second[0]
    c.override(K + "symmetrizedist", chosen)
    c.override(K + "removeoutliers", outliers)
    if c.concrete:
        seed = c.int("seed", lo=0, hi=10**6)
        np.random.seed(seed)
    r = cuts.slopecut(traces, fs=fs, symmetrizeflag=True)
    if c.concrete:
        np.random.seed(seed)
        v = np.array([slope_of(i) for i in range(m)])
        first = [cuts.symmetrizedist(v)]
        second = [cuts.removeoutliers(v[first[0]])]
    want = np.zeros(m, dtype=bool)
    want[np.arange(m)[first[0]][second[0]]] = True
    k = c.index("k", m)
    c.check("one entry per trace", len(r) == m)
    c.check("the traces kept", bool(r[k]) == bool(want[k]))
    c.frame()


@contract("K07", [K + "get_muon_cut"])
def muons(c):
    m = c.int("m", lo=1, hi=None if not c.concrete else 12)
    n = c.int("n", lo=1, hi=None if not c.concrete else 40)
    x = c.array("traces", (m, n))
    if c.concrete:
        x = np.abs(x) if c.flag("positive") else np.rint(x)
    w = c.int("nsatbins", lo=0, hi=None if not c.concrete else 12)
    pct = c.real("thresh_pct", pos=True, gen=u(.05, 1))
    r = cuts.get_muon_cut(x, thresh_pct=pct, nsatbins=w)
    c.check("one entry per trace", len(r) == m)
    k = c.index("k", m)
    p = np.argmax(x[k])
    if p + w < n:
        c.check("saturated: still high after nsatbins",
                bool(r[k]) == bool(x[k][p + w] >= pct * np.max(x[k])))
    else:
        c.check("not decided by the trace: not a muon", not r[k])
    c.frame()


def truncated(c):
    """the standard normal density and distribution as library contracts, the
    root finder by its contract; returns the systems it was given"""
    from scipy import stats
    systems = []
    if c.concrete:
        return stats.norm.pdf, stats.norm.cdf, systems

    def pdf(x, loc=0, scale=1):
        return c.functional("phi", (x - loc) / scale) / scale

    def cdf(x, loc=0, scale=1):
        return c.functional("Phi", (x - loc) / scale)

    def fsolve(func, x0, args=(), **kw):
        p = (c.real("root mean"), c.real("root std", pos=True))
        r = func(p, *args)
        c.check("two equations for two unknowns", len(r) == 2)
        c.assume(c.both(r[0] == 0, r[1] == 0))
        systems.append(r)
        return p
    c.stub("scipy.stats.norm.pdf", pdf)
    c.stub("scipy.stats.norm.cdf", cdf)
    c.stub("scipy.optimize.fsolve", fsolve)
    return pdf, cdf, systems


def near(c, a, b, scale):
    if c.concrete:
        return np.abs(a - b) <= 1e-6 * max(scale, np.abs(b))
    return a == b


@contract("K08", [K + "iterstat", K + "_UnbiasedEstimators.__init__",
                  K + "_UnbiasedEstimators._equations",
                  K + "_UnbiasedEstimators._calc_unbiased_estimators"])
def estimators(c):
    n = c.int("n", lo=2 if not c.concrete else 100,
              hi=None if not c.concrete else 300)
    x = c.array("data", n)
    a = c.real("lower", gen=u(-3, -2))
    b = c.real("upper", gen=u(2, 3))
    c.assume(a < b)
    if c.concrete:
        s = 10.0**c.int("scale", lo=-1, hi=1)
        x, a, b = s * x, s * a, s * b
    kept = x[(x >= a) & (x <= b)]
    m = len(kept)
    if m < 2:
        return
    pdf, cdf, roots = truncated(c)
    est = cuts._UnbiasedEstimators(x, a, b)
    mu, s = est.mu, est.std
    pa, pb = pdf(a, loc=mu, scale=s), pdf(b, loc=mu, scale=s)
    z = cdf(b, loc=mu, scale=s) - cdf(a, loc=mu, scale=s)
    c.assume(z > 0)
    plain = c.opaque(m, np.sum(kept), np.sum(kept**2))
    for r in roots:
        c.assume(c.both(plain(r[0]) == 0, plain(r[1]) == 0))
    c.assume(plain(np.var(kept)) > 0)
    off, term = np.sum(kept - mu), m * (pa - pb) / z
    c.eq("the likelihood is stationary in the mean",
         plain(off), plain(term * s**2), scale=m * s)
    # the known finding is the weight of the truncation term only
    c.check("the equation of the mean, up to a weight", c.either(
        near(c, plain(off), plain(term * s**2), m * s),
        near(c, plain(off), plain(term), m * s)))
    c.eq("the likelihood is stationary in the width",
         plain(np.sum((kept - mu)**2)), plain(
             m * s**2 * (1 - ((b - mu) * pb - (a - mu) * pa) / z)),
         scale=m * s**2)
    c.frame()


def stationary(c, x, a, b, mu, s, which):
    from scipy.stats import norm
    m = len(x)
    pa, pb = norm.pdf(a, loc=mu, scale=s), norm.pdf(b, loc=mu, scale=s)
    z = norm.cdf(b, loc=mu, scale=s) - norm.cdf(a, loc=mu, scale=s)
    c.eq("stationary in the mean" + which, np.sum(x - mu), m * s**2 * (pa - pb) / z,
         scale=m * s, tol=1e-4)
    c.eq("stationary in the width" + which, np.sum((x - mu)**2),
         m * s**2 * (1 - ((b - mu) * pb - (a - mu) * pa) / z),
         scale=m * s**2,
         tol=1e-4)


@contract("K08", [K + "iterstat"])
def unbiased(c):
    n = c.int("n", lo=2 if not c.concrete else 100,
              hi=None if not c.concrete else 300)
    x = c.array("data", n)
    if c.concrete:
        small = c.int("amperes", lo=0, hi=4) == 0
        x = x * (10.0**c.int("small scale", lo=-12, hi=-8) if small else
                 10.0**c.int("scale", lo=-1, hi=3))
    ncut = c.real("cut", pos=True, gen=u(2, 3))
    given = []

    class Known:
        def __init__(self, x, lwrbnd, uprbnd):
            self.mu = c.fresh_real("mu")
            self.std = c.fresh_real("std")
            given.append((x, lwrbnd, uprbnd, self.mu, self.std))
    c.override(K + "_UnbiasedEstimators", Known)
    m0, s0, mask0 = cuts.iterstat(x, cut=ncut)
    mean, std, mask = cuts.iterstat(x, cut=ncut,
                                    return_unbiased_estimates=True)
    kept = x[mask]
    m1, s1 = np.mean(kept), np.std(kept)
    if c.concrete:
        est = cuts._UnbiasedEstimators(kept, m1 - ncut * s1, m1 + ncut * s1)
        given.append((kept, m1 - ncut * s1, m1 + ncut * s1, est.mu, est.std))
        c.check("the values kept do not depend on the estimate",
                np.all(mask == mask0))
        a, b = m1 - ncut * s1, m1 + ncut * s1
        if np.all((kept >= a) & (kept <= b)):
            stationary(c, kept, a, b, mean, std,
                       " (small units)" if small else "")
    if len(given) == 0:
        c.check("nothing cut without an estimate", np.all(mask))
        return
    y, a, b, mu, s = given[0]
    c.eq("values used", y, kept)
    c.eq("lower bound", a, m1 - ncut * s1, scale=s1)
    c.eq("upper bound", b, m1 + ncut * s1, scale=s1)
    c.eq("mean", mean, mu, scale=s1, tol=1e-6)
    c.eq("standard deviation", std, s, scale=s1, tol=1e-6)
    c.frame()


@contract("K09", [K + "symmetrizedist"])
def symmetric(c):
    n = c.int("n", lo=1, hi=400)
    x = c.array("x", n)
    s = c.real("shift", gen=u(-2, 2))
    x = x + s
    if c.flag("tail"):
        x = np.where(x > 1, x**2, x) if s > 0 else np.where(x < -1, -x**2, x)
    x = x * 10.0**c.int("scale", lo=-8, hi=2)
    seed = c.int("seed", lo=0, hi=10**6)
    np.random.seed(seed)
    r = cuts.symmetrizedist(x)
    c.check("one entry per value", len(r) == n)
    mean = cuts.iterstat(x, cut=2, precision=1e4)[0]
    y = -x if mean > 0 else x
    top = np.max(y)
    bins = int(np.sqrt(n))
    bins += 1 - bins % 2
    if top <= 0 or bins < 3:
        c.check("nothing to compare with: all kept", np.all(r))
        return
    edges = np.linspace(-top, top, bins + 1)
    h = bins // 2
    near = np.min(np.abs(y[:, None] - edges[None, 1:-1]), axis=1) < 1e-9 * top
    c.assume(not np.any(near))
    c.check("all of the shorter side", np.all(r[y > edges[h]]))
    c.check("nothing beyond the shorter side",
            not np.any(r[y < -top * (1 + 1e-9)]))
    for j in range(h):
        this = (y > edges[j]) & (y < edges[j + 1])
        other = (y > edges[bins - 1 - j]) & (y <= edges[bins - j])
        c.check("mirrored bins", np.sum(r & this)
                == min(np.sum(this), np.sum(other)))
    c.frame()
