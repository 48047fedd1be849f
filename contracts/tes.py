"""Contracts of the TES noise simulation (qetpy/sim/_sim.py)."""
import numpy as np
import scipy.constants as constants
from contracts.base import contract
from qetpy.sim import _sim as sim
from qetpy.core.didv import _base_didv as base

S = "qetpy.sim._sim:"
B = "qetpy.core.didv._base_didv:"


def u(lo, hi):
    return lambda r: r.uniform(lo, hi)


def ss(c, loop=True):
    """small-signal parameters of a TES"""
    p = dict(
        rload=c.real("rload", pos=True, gen=u(0.004, 0.02)),
        r0=c.real("r0", pos=True, gen=u(0.05, 0.3)),
        rshunt=c.real("rshunt", pos=True, gen=u(0.002, 0.01)),
        beta=c.real("beta", nonneg=True, gen=u(0, 3)),
        inductance=c.real("inductance", pos=True, gen=u(1e-7, 9e-7)),
        tau0=c.real("tau0", pos=True, gen=u(1e-4, 2e-3)),
        G=c.real("G", pos=True, gen=u(1e-10, 9e-10)),
        qetbias=c.real("qetbias", pos=True, gen=u(5e-5, 3e-4)),
        tc=c.real("tc", pos=True, gen=u(0.03, 0.07)),
        tload=c.real("tload", pos=True, gen=u(0.1, 1.)),
        tbath=c.real("tbath", pos=True, gen=u(0.005, 0.025)),
        squiddc=c.real("squiddc", pos=True, gen=u(1e-12, 9e-12)),
    )
    p["loopgain"] = c.real("loopgain", pos=True, gen=lambda r: r.choice(
        [r.uniform(0.2, 0.8), r.uniform(2, 20)]))
    c.assume(p["loopgain"] != 1)
    return p


def frequencies(c):
    """frequencies stored in the object or handed to the method"""
    n = c.int("n", lo=1)
    f = c.array("f", n, pos=True, gen=lambda r, m: r.uniform(1, 1e5, m))
    if c.flag("frequencies passed to the method"):
        g = c.array("stored", n, pos=True,
                    gen=lambda r, m: r.uniform(1, 1e5, m))
        return f, g, (f,)
    return f, f, ()


@contract("S01", [S + "TESnoise.__init__", S + "TESnoise.dIdV",
                  S + "TESnoise.dIdP"])
def small_signal(c):
    f, g, a = frequencies(c)
    p = ss(c)
    tes = sim.TESnoise(freqs=g, **p)
    iv = tes.dIdV(*a)
    ip = tes.dIdP(*a)
    w = 2 * np.pi * f
    rl, r0, b, lg = p["rload"], p["r0"], p["beta"], p["loopgain"]
    i0 = p["qetbias"] * p["rshunt"] / (r0 + rl)
    z = rl + r0 * (1 + b) + 1j * w * p["inductance"]
    # temperature response eliminated with the thermal equation
    th = 1 - lg + 1j * w * p["tau0"]
    for name, di, dv, dp in (("voltage", iv, 1, 0), ("power", ip, 0, 1)):
        gdt = (dp + i0 * r0 * (2 + b) * di) / th         # G * dT
        c.eq("electrical equation for a %s perturbation" % name,
             z * di + lg / i0 * gdt, dv + 0 * di,
             scale=abs(z * di))
    c.eq("normal-state admittance", tes.dIdVnormal(*a)
         * (rl + r0 + 1j * w * p["inductance"]), 1 + 0 * w)
    c.eq("superconducting admittance", tes.dIdVsc(*a)
         * (rl + 1j * w * p["inductance"]), 1 + 0 * w)
    c.frame()


def budget(c, full):
    f, g, a = frequencies(c)
    p = ss(c)
    if full:
        lgcb, n, squid, squidn = False, 5.0, True, 1.0
    else:
        lgcb = c.choice("lgcb", [True, False])
        n = c.choice("n", [4.0, 5.0])
        squid = c.flag("squid 1/f")
        squidn = c.choice("squidn", [1.0, 2.0]) if squid else 1.0
    kw = {}
    if squid:
        kw = dict(squidpole=c.real("squidpole", pos=True, gen=u(1, 100)),
                  squidn=squidn)
    tes = sim.TESnoise(freqs=g, n=n, lgcb=lgcb, **p, **kw)
    k = constants.k
    one = 1 + 0 * f
    t = p["tbath"] / p["tc"]
    ftfn = (t**(n + 1) + 1) / 2 if lgcb else \
        n / (2 * n + 1) * (t**(2 * n + 1) - 1) / (t**n - 1)
    pt = 4 * k * p["tc"]**2 * p["G"] * ftfn * one
    if squid:
        x = kw["squidpole"] / f
        sq = p["squiddc"]**2 * (1 + (x * x if squidn == 2 else x))**2
    else:
        sq = p["squiddc"]**2 * one
    return f, a, p, tes, pt, sq


@contract("S02", [S + "TESnoise.__init__", S + "TESnoise.s_ptfn",
                  S + "TESnoise.s_isquid"])
def sources(c):
    f, a, p, tes, pt, sq = budget(c, False)
    c.eq("thermal fluctuation power noise", tes.s_ptfn(*a), pt)
    c.eq("SQUID noise", tes.s_isquid(*a), sq)
    c.frame()


@contract("S02", [S + "TESnoise." + m for m in (
    "s_vload", "s_iload", "s_pload", "s_vtes", "s_ites", "s_ptes", "s_ptfn",
    "s_itfn", "s_isquid", "s_psquid", "s_itot", "s_ptot", "s_iloadnormal",
    "s_vtesnormal", "s_itesnormal", "s_itotnormal", "s_iloadsc",
    "s_itotsc")])
def noise_budget(c):
    f, a, p, tes, pt, sq = budget(c, True)
    iv, ip = tes.dIdV(*a), tes.dIdP(*a)
    one = 1 + 0 * f
    k = constants.k
    i0 = p["qetbias"] * p["rshunt"] / (p["r0"] + p["rload"])
    vl = 4 * k * p["tload"] * p["rload"] * one
    vt = 4 * k * p["tc"] * p["r0"] * (1 + p["beta"])**2 * one
    c.eq("load voltage noise", tes.s_vload(*a), vl)
    c.eq("load current noise", tes.s_iload(*a), vl * abs(iv)**2)
    c.eq("TES voltage noise", tes.s_vtes(*a), vt)
    c.eq("TES current noise", tes.s_ites(*a), vt * abs(iv - i0 * ip)**2)
    c.eq("thermal fluctuation power noise", tes.s_ptfn(*a), pt)
    c.eq("thermal fluctuation current noise", tes.s_itfn(*a),
         pt * abs(ip)**2)
    c.eq("SQUID noise", tes.s_isquid(*a), sq)
    tot = vl * abs(iv)**2 + vt * abs(iv - i0 * ip)**2 + pt * abs(ip)**2 + sq
    c.eq("total current noise", tes.s_itot(*a), tot)
    c.eq("load power noise", tes.s_pload(*a) * abs(ip)**2, vl * abs(iv)**2)
    c.eq("TES power noise", tes.s_ptes(*a) * abs(ip)**2,
         vt * abs(iv - i0 * ip)**2)
    c.eq("SQUID power noise", tes.s_psquid(*a) * abs(ip)**2, sq)
    c.eq("total power noise", tes.s_ptot(*a) * abs(ip)**2, tot)
    c.eq("power components add up", tes.s_ptot(*a), tes.s_pload(*a)
         + tes.s_ptes(*a) + tes.s_ptfn(*a) + tes.s_psquid(*a))
    yn, ysc = tes.dIdVnormal(*a), tes.dIdVsc(*a)
    ln, tn = vl * abs(yn)**2, 4 * k * p["tc"] * p["r0"] * abs(yn)**2
    c.eq("normal: load", tes.s_iloadnormal(*a), ln)
    c.eq("normal: TES voltage", tes.s_vtesnormal(*a),
         4 * k * p["tc"] * p["r0"] * one)
    c.eq("normal: TES", tes.s_itesnormal(*a), tn)
    c.eq("normal: total", tes.s_itotnormal(*a), ln + tn + sq)
    c.eq("superconducting: load", tes.s_iloadsc(*a), vl * abs(ysc)**2)
    c.eq("superconducting: total", tes.s_itotsc(*a), vl * abs(ysc)**2 + sq)
    c.frame()


class Fit:
    """stands for a DIDV / DIDVPriors object on which the fit was run"""

    def __init__(self, results):
        self.results = results

    def fitresult(self, poles):
        return self.results[poles]


@contract("S03", [S + "loadfromdidv"])
def from_didv(c):
    p = ss(c)
    f = c.real("f", pos=True, gen=u(1, 1e5))
    kind = c.choice("noisetype", ["transition", "normal", "superconducting"])
    key = c.choice("kind of fit", ["smallsignalparams", "params"])
    rsh, ind = p["rshunt"], p["inductance"]
    rp = p["rload"]
    other = dict(rsh=c.real("rsh of the other fit", pos=True),
                 rp=c.real("rp of the other fit", pos=True),
                 L=c.real("L of the other fit", pos=True))
    one = dict(rsh=rsh, rp=rp, L=ind, dt=0.)
    two = dict(one, r0=p["r0"], beta=p["beta"], l=p["loopgain"],
               tau0=p["tau0"])
    if kind == "transition":
        res = {1: {key: other}, 2: {key: two}}
    else:
        res = {1: {key: one}, 2: {key: dict(two, **other)}}
    if key == "smallsignalparams":
        for r in res.values():
            r["params"] = dict(A=0.3, tau2=1e-6, dt=0.)
    kw = dict(qetbias=p["qetbias"], tc=p["tc"], tload=p["tload"],
              tbath=p["tbath"], squiddc=p["squiddc"],
              squidpole=c.real("squidpole", pos=True, gen=u(1, 100)),
              squidn=2.0)
    if c.flag("G given"):
        kw["G"] = p["G"]
    else:
        p["G"] = 5.0e-10
    rn = c.real("rnormal", pos=True, gen=u(0.1, 0.4))
    if kind == "normal":
        e, _ = c.raises(lambda: sim.loadfromdidv(
            Fit(res), noisetype=kind, **kw), ValueError)
        c.check("rnormal is required for normal noise", e is not None)
        kw["rnormal"] = rn
    tes = sim.loadfromdidv(Fit(res), noisetype="".join(list(kind)), **kw)
    j = 2j * np.pi * f
    fs = np.array([f])
    k = constants.k
    sq = p["squiddc"]**2 * (1 + kw["squidpole"] / f * kw["squidpole"] / f)**2
    if kind == "transition":
        ref = base.complexadmittance(f, **two)
        c.eq("dIdV is the fitted admittance", tes.dIdV(fs)[0], ref)
        i0 = p["qetbias"] * rsh / (p["r0"] + rsh + rp)
        ip = tes.dIdP(fs)[0]
        t = p["tbath"] / p["tc"]
        c.eq("total current noise", tes.s_itot(fs)[0],
             4 * k * p["tload"] * (rsh + rp) * abs(ref)**2
             + 4 * k * p["tc"] * p["r0"] * (1 + p["beta"])**2
             * abs(ref - i0 * ip)**2
             + 4 * k * p["tc"]**2 * p["G"] * (t**6 + 1) / 2
             * abs(ip)**2 + sq)
    else:
        ref = base.complexadmittance(f, **one)
        if kind == "normal":
            y = tes.dIdVnormal(fs)[0]
            c.eq("dIdVnormal is the fitted admittance", y, ref)
            c.eq("normal noise", tes.s_itotnormal(fs)[0],
                 (4 * k * p["tload"] * (rsh + rp - rn)
                  + 4 * k * p["tc"] * rn) * abs(ref)**2 + sq)
        else:
            y = tes.dIdVsc(fs)[0]
            c.eq("dIdVsc is the fitted admittance", y, ref)
            c.eq("superconducting noise", tes.s_itotsc(fs)[0],
                 4 * k * p["tload"] * (rsh + rp) * abs(ref)**2 + sq)
    e, _ = c.raises(lambda: sim.loadfromdidv(
        Fit(res), noisetype="other", **kw), ValueError)
    c.check("unknown noise types are refused", e is not None)


@contract("S04", [S + "energy_res_estimate"])
def energy_resolution(c):
    n = c.int("n", lo=2)
    f = c.array("f", n, pos=True,
                gen=lambda r, m: np.cumsum(r.uniform(1, 1e3, m)))
    sp = c.array("Sp", n, pos=True,
                 gen=lambda r, m: r.uniform(1, 9, m) * 1e-34)
    tau = c.real("tau_collect", nonneg=True, gen=u(0, 1e-3))
    eff = c.real("collection_eff", pos=True, gen=u(0.1, 1))
    res = sim.energy_res_estimate(f, tau, sp, eff)
    w = 2 * np.pi * f
    y = 2 * eff**2 / (1 + (w * tau)**2) / (np.pi * sp)
    tot = np.sum((y[1:] + y[:-1]) * (w[1:] - w[:-1])) / 2
    c.check("the resolution is not negative", res >= 0)
    c.eq("sigma^2 * integral = 1 (in eV^2)",
         (res * constants.e)**2 * tot, 1)
    c.frame()
