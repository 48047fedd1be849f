"""Verification-condition generation for one contract harness.

A harness h(c) builds arbitrary inputs that satisfy the precondition, calls the
real function(s) and states the postcondition through c.check / c.eq.  It is
executed once per feasible path of the real code on symbolic values; every
check becomes an obligation over the path condition."""
import time
import z3
from fractions import Fraction
from . import ring, form, rt, sym, npshim, prover
from .ring import Poly, P, ONE, ZERO, Unsupported, get_atom, mono1
from .form import TRUE, FALSE, f_and, f_or, f_not, lt0, le0, eq0
from .sym import (S, B, SymArr, Dim, Buf, Pos, Path, PathEnd, Restart, to_S,
                  form_of, as_arr, GENERIC, Dtype)


class Obl:
    __slots__ = ("name", "form", "facts", "foralls", "terms", "status",
                 "detail", "wall", "prefix", "choices", "inputs", "hints",
                 "backend", "zero")

    def __init__(self, name, f, p, ctx):
        self.name = name
        self.zero = None     # (guard, polynomial): f is guard -> poly == 0
        if isinstance(f, tuple):
            self.zero = f
            f = form.f_imp(f[0], eq0(f[1]))
        self.form = f
        self.facts = list(p.facts)
        self.foralls = list(p.foralls)
        self.terms = list(p.terms)
        self.status = None
        self.detail = ""
        self.wall = 0
        self.prefix = list(p.taken)
        self.choices = dict(ctx.choices)
        self.inputs = dict(ctx.inputs)
        self.hints = {}
        self.backend = ""


def simp_ind(x):
    """decide the indicators of x under the path condition"""
    x = to_S(x)
    p = x.p
    facts = sym.path().facts
    for i in prover.indicators(p):
        f = get_atom(i).args[0]
        if form.entails(facts, f, 800) is True:
            p = ring.set_ind(p, i, 1)
        elif form.entails(facts, f_not(f), 800) is True:
            p = ring.set_ind(p, i, 0)
    if p == x.p:
        return x
    return S(p, nanc=x.nanc, infc=x.infc, isint=x.isint)


class SymCtx:
    sym = True

    concrete = False

    def __init__(self, proj, fixed=None):
        self.proj = proj
        self.fixed = fixed or {}
        self.asked = set()
        self.np = npshim.NP
        self.choices = {}
        self.inputs = {}
        self.frozen = []
        self.undo = []
        self.calls = 0

    # -- inputs ----------------------------------------------------------
    def _nm(self, name):
        ring._fresh[0] += 1
        return "%s!%d" % (name, ring._fresh[0])

    def int(self, name, lo=None, hi=None, gen=None):
        v = ring.var(self._nm(name), integer=True,
                     pos=isinstance(lo, int) and lo > 0,
                     nonneg=isinstance(lo, int) and lo >= 0)
        if lo is not None:
            l = to_S(lo).fin()
            form.add_varfact(v, le0(l - v))
        if hi is not None:
            h = to_S(hi).fin()
            form.add_varfact(v, le0(v - h))
        self.inputs[name] = v
        return S(v, isint=True)

    def real(self, name, pos=False, nonneg=False, nonzero=False, gen=None,
             like=None):
        v = ring.var(self._nm(name), pos=pos, nonneg=nonneg)
        if nonzero and not pos:
            sym.path().add(f_not(eq0(v)))
        self.inputs[name] = v
        return S(v, isint=False)

    def to_int(self, name, x):
        """x is (close to) an integer; obligation, and the integer"""
        x = to_S(x)
        f = x.fin()
        p = sym.path()
        p.obls.append(Obl(name, TRUE if f.is_integer() else eq0(
            f - ring.floor(f)), p, self))
        return S(f, isint=True)

    def complex(self, name, gen=None):
        return S(ring.var(self._nm(name), real=False), isint=False)

    def array(self, name, shape, real=True, pos=False, nonneg=False,
              dtype=None, gen=None, frozen=True, lo=None, hi=None):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        dims = npshim.shape_dims(tuple(shape))
        nm = self._nm(name)
        if dtype == "b":
            a = SymArr.new(dims, lambda idx: B(form.bapp(nm, list(idx))),
                           "b")
        else:
            it = dtype == "i"
            lo_ = None if lo is None else to_S(lo).fin()
            hi_ = None if hi is None else to_S(hi).fin()

            def el(idx):
                x = ring.app(nm, list(idx), real=real, integer=it, pos=pos,
                             nonneg=nonneg)
                at = ring.atom_of(x) if (lo_ is not None or hi_ is not None) \
                    and len(x.t) == 1 else None
                if at is not None and at.id not in bounded:
                    bounded.add(at.id)
                    if lo_ is not None:
                        form.add_varfact(x, le0(lo_ - x))
                    if hi_ is not None:
                        form.add_varfact(x, le0(x - hi_))
                return S(x, isint=it)
            bounded = set()
            a = SymArr.new(dims, el,
                "i" if it else ("f" if real else "c"))
        if frozen:
            self.frozen.append((name, a, a.buf.fn))
        return a

    def choice(self, name, options):
        k = self.fixed.get(name)
        self.asked.add(name)
        if k is None:
            k = sym.path().choose(len(options))
        elif k >= len(options):
            raise PathEnd()
        self.choices[name] = k
        return options[k]

    def flag(self, name):
        return self.choice(name, [False, True])

    # -- assumptions -----------------------------------------------------
    def assume(self, cond):
        p = sym.path()
        if isinstance(cond, SymArr):
            cond = npshim.NP.all(cond)
        f = form_of(cond)
        if f is FALSE:
            raise PathEnd()
        p.add(f)

    def regular(self, fn):
        """concrete runs only: keep denominators away from zero"""

    def assume_all(self, n, pred):
        """for every 0 <= j < n: pred(j)"""
        p = sym.path()
        n = to_S(n).fin()
        j = ring.fresh("j", integer=True, nonneg=True)
        g = f_and(le0(-j), lt0(j - n))
        n0 = len(p.facts)
        p.add(g)
        try:
            f = form_of(pred(S(j, isint=True)))
        finally:
            del p.facts[n0:]
            p.new_epoch()
        jid = ring.atom_of(j).id
        f = form.f_imp(g, f)

        def mk(t):
            return f.subst({jid: t})
        p.foralls.append((mk, "assumed"))

    def index(self, name, n):
        """an arbitrary index 0 <= k < n (universally quantified)"""
        n = to_S(n).fin()
        k = sym.fresh_index(n, name)
        sym.path().terms.append(k)
        self.inputs[name] = k
        return S(k, isint=True)

    def feasible(self):
        return sym.path().feasible()

    # -- obligations -----------------------------------------------------
    def check(self, name, cond):
        p = sym.path()
        if isinstance(cond, SymArr):
            cond = npshim.NP.all(cond)
        f = form_of(cond)
        p.obls.append(Obl(name, f, p, self))

    def implies(self, a, b):
        return B(form.f_imp(form_of(a), form_of(b)))

    def leq(self, a, b, scale=None, tol=None):
        """a <= b (with a rounding allowance in concrete runs)"""
        return simp_ind(a) <= simp_ind(b)

    def pos_scale(self, x):
        return x

    def both(self, a, b):
        return B(f_and(form_of(a), form_of(b)))

    def either(self, a, b):
        return B(f_or(form_of(a), form_of(b)))

    def neg(self, a):
        return B(f_not(form_of(a)))

    def bounded(self, why):
        """executions of the real code only"""
        raise Unsupported(why)

    def same(self, a, b):
        """equal by normal form (symbolic executions only)"""
        return eq0(to_S(a).fin() - to_S(b).fin()) is form.TRUE

    def ite(self, c, a, b):
        return sym.ite(form_of(c), a, b)

    def le(self, name, a, b, tol=None, scale=None):
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            self.check(name, a <= b)
        else:
            self.check(name, simp_ind(a) <= simp_ind(b))

    def eq(self, name, a, b, tol=None, scale=None):
        p = sym.path()
        for nm, f in self._eq(name, a, b):
            p.obls.append(Obl(nm, f, p, self))

    def _eq(self, name, a, b):
        if isinstance(a, (SymArr,)) or isinstance(b, SymArr):
            if a is None or b is None or isinstance(a, str) or \
                    isinstance(b, str):
                yield name, FALSE
                return
            a, b = as_arr(a), as_arr(b)
            if a.ndim != b.ndim:
                yield name + ".ndim", FALSE
                return
            for j, (x, y) in enumerate(zip(a.dims, b.dims)):
                if x.filtered or y.filtered:
                    if not sym.same_dim(x, y):
                        yield name + ".axis%d" % j, FALSE
                        return
                else:
                    f = eq0(x.n - y.n)
                    if f is not TRUE:
                        yield name + ".shape%d" % j, f
            ks = [sym.fresh_index(d.rng()) for d in a.dims]
            g = f_and(*[d.guard(k) for d, k in zip(a.dims, ks)])
            sym.path().terms.extend(ks)
            # evaluate the generic element on both sides
            x, y = a.elem(tuple(ks)), b.elem(tuple(ks))
            yield name, self._eqv(x, y, g)
            return
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if not (isinstance(a, (tuple, list)) and
                    isinstance(b, (tuple, list))) or len(a) != len(b):
                if isinstance(a, rt.SymList) and a.seg is not None or \
                        isinstance(b, rt.SymList) and b.seg is not None:
                    yield from self._eq(name, npshim.NP.array(a),
                                        npshim.NP.array(b))
                    return
                yield name + ".len", FALSE
                return
            for j, (x, y) in enumerate(zip(a, b)):
                yield from self._eq("%s[%d]" % (name, j), x, y)
            return
        if a is None or b is None or isinstance(a, str) or \
                isinstance(b, str):
            yield name, (TRUE if a is b or (isinstance(a, str) and a == b)
                         else FALSE)
            return
        if isinstance(a, Pos) or isinstance(b, Pos):
            raise Unsupported("comparison of compressed positions")
        yield name, self._eqv(a, b)

    @staticmethod
    def _eqv(x, y, g=TRUE):
        if not isinstance(x, (B, bool)) and not isinstance(y, (B, bool)):
            x, y = to_S(x), to_S(y)
            if all(f is None or f is FALSE for f in (
                    x.nanc, y.nanc, x.infc, y.infc)):
                return (g, x.p - y.p)
        return form.f_imp(g, SymCtx._eqf(x, y))

    @staticmethod
    def _eqf(x, y):
        if isinstance(x, (B, bool)) and isinstance(y, (B, bool)):
            return form.f_iff(form_of(x), form_of(y))
        x, y = to_S(x), to_S(y)
        f = TRUE
        xn, yn = x.nanc or FALSE, y.nanc or FALSE
        xi, yi = x.infc or FALSE, y.infc or FALSE
        if xn is not FALSE or yn is not FALSE:
            f = f_and(f, form.f_iff(xn, yn))
        if xi is not FALSE or yi is not FALSE:
            f = f_and(f, form.f_iff(xi, yi))
        e = eq0(x.p - y.p)
        return f_and(f, f_or(xn, xi, e))

    # -- calls ---------------------------------------------------------
    def need(self, obj, name):
        """the internal helper this contract is about"""
        if not hasattr(obj, name):
            raise Unsupported("%s is not there" % name)

    def raises(self, fn, *excs):
        """(exception or None, result)"""
        excs = excs or (Exception,)
        try:
            r = fn()
        except excs as e:
            return e, None
        return None, r

    def unchanged(self, name, arr):
        for nm, a, fn0 in self.frozen:
            if a is arr:
                self._frame(nm, a, fn0)
                return
        raise Unsupported("unchanged(): not an input")

    def _frame(self, nm, a, fn0):
        p = sym.path()
        if a.buf.fn is fn0:
            p.obls.append(Obl("frame:" + nm, TRUE, p, self))
            return
        ks = [sym.fresh_index(d.rng()) for d in a.dims]
        x = a.elem(tuple(ks))
        y = fn0(tuple(ks))
        p.obls.append(Obl("frame:" + nm, self._eqv(x, y), p, self))

    def frame(self):
        """none of the input arrays was modified"""
        for nm, a, fn0 in self.frozen:
            self._frame(nm, a, fn0)

    def cover(self, name):
        """reachability marker (vacuity guard)"""
        sym.path().labels["cover:" + name] = True

    def stub(self, dotted, fn):
        self.proj.external[dotted] = fn
        if dotted.startswith("numpy.random."):
            npshim.RANDOM_STUBS[dotted] = fn
        elif dotted.startswith("numpy.") and dotted.count(".") == 1:
            k = dotted[6:]
            self.undo.append((npshim.NP, k, npshim.NP.__dict__.get(k, npshim.no(dotted))))
            setattr(npshim.NP, k, fn)

    def spy(self, target):
        return []

    def replace(self, cls, name, fn):
        self.undo.append((cls, name, cls.__dict__[name]))
        setattr(cls, name, fn)

    def override(self, target, fn):
        """callee replaced by its contract (if the callee still exists)"""
        mod, _, qual = target.partition(":")
        o = self.proj.module(mod)
        parts = qual.split(".")
        for x in parts[:-1]:
            o = getattr(o, x, None)
        if o is None or not hasattr(o, parts[-1]):
            return
        old = o.__dict__[parts[-1]]
        if isinstance(old, staticmethod):
            fn = staticmethod(fn)
        self.undo.append((o, parts[-1], old))
        setattr(o, parts[-1], fn)
        # names imported into other modules
        for m in self.proj.mods.values():
            d = getattr(m, "__dict__", {})
            for k, v in list(d.items()):
                if v is old and m is not o and not k.startswith("__"):
                    self.undo.append((m, k, old))
                    setattr(m, k, fn)

    def restore(self):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)
        self.undo = []

    def kind(self, v):
        """int, bool, real or other: the kind of a loop variable"""
        if isinstance(v, (bool, B)):
            return "bool"
        if isinstance(v, (int, S)):
            return "int" if to_S(v).is_int() else "real"
        return "other"

    def loop_invariant(self, fn):
        """candidate invariant of every loop-carried value fn applies to
        (fn: value -> condition or None); kept where it holds on entry and is
        preserved by an arbitrary iteration"""
        rt.INVARIANTS.append(fn)

    def term(self, *xs):
        for x in xs:
            sym.path().terms.append(to_S(x).fin())

    def _positive(self, e):
        return form.entails(sym.path().facts, form.lt0(-e), 2000) is True

    def opaque(self, *exprs):
        """x -> x written with new unknowns for the given expressions (each
        is solved for one of its sums).  Equations rewritten by it say the
        same, as every unknown is defined to be its expression"""
        used, memo, deps = set(), {}, {}
        for e in exprs:
            e = to_S(e).fin()
            v = ring.fresh("u", real=True, pos=self._positive(e))
            for mono, cf in sorted(e.t.items(), key=str):
                if len(mono) != 1 or mono[0][1] != 1:
                    continue
                at = ring.get_atom(mono[0][0])
                if at.kind == "Sum" and at.id not in used and \
                        sum(at.id in dict(m) for m in e.t) == 1:
                    break
            else:
                raise Unsupported("opaque expression")
            used.add(at.id)
            rest = e - ring.mono1(at).scale(cf)
            rest = ring._subst(rest, deps, dict(memo)) if deps else rest
            for a in at.deps:
                if ring.get_atom(a).kind == "var":
                    deps[a] = ring.mono1(ring.get_atom(a))
            memo[at.id] = (v - rest).scale(ring.Fraction(1) / cf)
        return lambda x: S(ring._subst(to_S(x).fin(), deps, dict(memo)))

    def functional(self, name, *args):
        """an unknown real function of arrays (1-D) and numbers"""
        out = []
        for a in args:
            if isinstance(a, SymArr):
                if a.ndim != 1:
                    raise Unsupported("functional of a matrix")
                d = a.dims[0]
                fn = a.snap()
                out += [d.rng(), npshim.Lam.of(lambda k: to_S(fn((k,))).fin(),
                                        d.rng()), npshim.Lam.of_form(d.cond)]
            else:
                out.append(to_S(a).fin())
        return S(ring.app("F:" + name, out))

    def mask_like(self, name, arr):
        """arbitrary booleans for the first axis of arr"""
        nm = self._nm(name)
        return SymArr.new([arr.dims[0]], lambda idx: B(form.bapp(
            nm, list(idx))), "b")

    def fresh_real(self, name):
        return S(ring.var(self._nm(name)))

    def fresh_array(self, name, n, **kw):
        return self.array(name, n, frozen=False, **kw)


# ---------------------------------------------------------------- proving
def _ground_apps(roots):
    """app atoms (not under binders) in formulas / polys"""
    out = {}
    seen = set()
    st = list(roots)
    while st:
        q = st.pop()
        if isinstance(q, form.Form):
            if ("f", q.id) in seen:
                continue
            seen.add(("f", q.id))
            if q.kind == "forall":
                continue
            if q.kind == "bapp":
                out[("b", q.id)] = (q.args[0], q.args[1:])
            for x in q.args:
                if isinstance(x, (Poly, form.Form)):
                    st.append(x)
        elif isinstance(q, Poly):
            for m in q.t:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    at = get_atom(a)
                    if at.kind == "app":
                        out[a] = (at.args[0], at.args[2:])
                        for x in at.args[2:]:
                            if isinstance(x, Poly):
                                st.append(x)
                    elif at.kind == "Sum":
                        continue
                    else:
                        for x in at.args:
                            if isinstance(x, (Poly, form.Form)):
                                st.append(x)
    return out


def _solve_for(e, vid):
    """e == 0 linear in var with coefficient +-1"""
    return npshim.solve_lin(e, vid)


class Proof:
    """one obligation"""

    def __init__(self, facts, foralls, terms):
        self.facts = []
        self.seen = set()
        self.univ = []       # functions j -> Form
        self.univ_terms = [] # per-universal instantiated terms
        self.terms = list(terms)
        self.unfolded = False
        for mk, why in foralls:
            if mk is not None:
                self.univ.append(mk)
                self.univ_terms.append(set())
        lits = form.units(facts)
        for f in facts:
            self.add(form.simp_units(f, lits) if f.kind == "or" else f)

    def add(self, f):
        if f is TRUE or f.id in self.seen:
            return
        self.seen.add(f.id)
        if f.kind == "and":
            for g in f.args:
                self.add(g)
            return
        if f.kind == "forall":
            qs = f.args[0]
            if len(qs) == 1:
                self.univ.append(lambda j, f=f: form.f_imp(
                    *form.inst(f, (j,))))
                self.univ_terms.append(set())
            elif len(qs) == 2:
                self.univ.append(("2", f))
                self.univ_terms.append(set())
        elif f.kind == "not" and f.args[0].kind == "forall":
            fa = f.args[0]
            ws = [ring.fresh("w", integer=True, nonneg=True)
                  for _ in fa.args[0]]
            g, b = form.inst(fa, ws)
            self.terms += ws
            self.add(g)
            self.add(f_not(b))
        else:
            self._sumfact(f)
        self.facts.append(f)

    def _sumfact(self, f):
        """a vanishing / non-vanishing sum of non-negative terms"""
        neg = f.kind == "not"
        g = f.args[0] if neg else f
        if g.kind not in ("lt", "eq"):
            return
        p = g.args[0]
        c0 = p.t.get((), 0)
        rest = [(m, c) for m, c in p.t.items() if m]
        if not rest or len(rest) > 16:
            return
        his = set()
        for m, c in rest:
            if len(m) != 1 or m[0][1] != 1 or \
                    get_atom(m[0][0]).kind != "Sum":
                return
            his.add(get_atom(m[0][0]).args[0])
        if len(his) != 1:
            return
        hi, = his
        integer = all(get_atom(m[0][0]).integer for m, _ in rest)
        v = ring.fresh("v", integer=True, nonneg=True)
        vid = ring.atom_of(v).id
        tot = ZERO
        for m, c in rest:
            at = get_atom(m[0][0])
            tot = tot + ring.subst(at.args[1], {at.args[2]: v}).scale(c)
        zero = None
        if g.kind == "eq" and c0 == 0:
            zero = not neg
            if prover.prove_nonneg(tot, []) is not True:
                tot = -tot
                if prover.prove_nonneg(tot, []) is not True:
                    return
        elif g.kind == "lt" and integer and c0 == -1:
            if prover.prove_nonneg(tot, []) is not True:
                return
            zero = not neg        # Sum < 1
        elif g.kind == "lt" and neg and c0 == 0:
            # 0 <= Sum(tot) with tot <= 0
            if prover.prove_nonneg(-tot, []) is not True:
                return
            zero = True
        elif g.kind == "lt" and not neg and c0 == 0:
            if prover.prove_nonneg(-tot, []) is not True:
                return
            zero = False
        if zero is None:
            return
        if zero:
            def mk(j):
                return form.f_imp(f_and(le0(-j), lt0(j - hi)),
                                  eq0(ring.subst(tot, {vid: j})))
            self.univ.append(mk)
            self.univ_terms.append(set())
        else:
            w = ring.fresh("w", integer=True, nonneg=True)
            self.terms.append(w)
            self.add(lt0(w - hi))
            self.add(f_not(eq0(ring.subst(tot, {vid: w}))))

    def _arith_terms(self, fj, jid, goals):
        """j with p(j) == q for order atoms p(j) of fj and ground q"""
        ps = []
        for q in form._polys([fj]):
            if jid in q.deps and q.is_integer():
                ps.append(q)
        gs = []
        for f in self.facts + list(goals):
            if f.kind == "forall" or f.kind == "not" and \
                    f.args[0].kind == "forall":
                continue
            for q in form._polys([f]):
                if q.is_integer() and jid not in q.deps and len(q.t) < 8:
                    gs.append(q)
        out = []
        for p in ps[:8]:
            for q in gs[:40]:
                for sg in (1, -1):
                    r = _solve_for(p - q.scale(sg), jid)
                    if r is not None and jid not in r.deps:
                        out.append(r)
        out = list(dict.fromkeys(out))
        out.sort(key=lambda r: len(r.t))
        return out[:30]

    def instantiate(self, goals, arith=False):
        """add instances of the universal facts; number of new facts"""
        n0 = len(self.facts)
        apps = _ground_apps(self.facts + list(goals))
        byname = {}
        for nm, args in apps.values():
            byname.setdefault(nm, []).append(args)
        for u, mk in enumerate(self.univ):
            prover._tick()
            if isinstance(mk, tuple):
                f = mk[1]
                for a in self.terms[:6]:
                    for b in self.terms[:6]:
                        if (a, b) not in self.univ_terms[u]:
                            self.univ_terms[u].add((a, b))
                            self.add(form.f_imp(*form.inst(f, (a, b))))
                continue
            cands = list(self.terms)
            j = ring.fresh("j", integer=True, nonneg=True)
            jid = ring.atom_of(j).id
            try:
                fj = mk(j)
            except Unsupported:
                continue
            for nm, args in _ground_apps([fj]).values():
                for x_i, x in enumerate(args):
                    if isinstance(x, Poly) and jid in x.deps:
                        for other in byname.get(nm, ()):
                            if len(other) != len(args):
                                continue
                            o = other[x_i]
                            if not isinstance(o, Poly):
                                continue
                            ok = all(p == q for i, (p, q) in enumerate(
                                zip(args, other)) if i != x_i)
                            s = _solve_for(x - o, jid)
                            if s is not None:
                                cands.append(s)
                        if len(args) > 2 and False:
                            ok = ok
            if arith:
                cands += self._arith_terms(fj, jid, goals)
            for t in cands[:80]:
                if t in self.univ_terms[u] or not t.is_integer():
                    continue
                self.univ_terms[u].add(t)
                try:
                    self.add(mk(t))
                except Unsupported:
                    pass
        return len(self.facts) - n0

    def arg_extensionality(self, goal):
        """argmin/argmax of pointwise equal functions are equal"""
        apps = {}
        for key, (nm, args) in _ground_apps(self.facts + [goal]).items():
            if nm in ("argmin", "argmax", "first", "last") and \
                    isinstance(key, int):
                apps.setdefault(nm, []).append((key, args))
        if "argmin" in apps and "argmax" in apps:
            pairs = [(x, y, -1) for x in apps["argmin"]
                     for y in apps["argmax"]]
        else:
            pairs = []
        for l in apps.values():
            for i in range(len(l)):
                for k in range(i):
                    pairs.append((l[i], l[k], 1))
        n = 0
        for (ka, a), (kb, b), sg in pairs[:12]:
            e = eq0(mono1(get_atom(ka)) - mono1(get_atom(kb)))
            if e.id in self.seen:
                continue
            if prover.prove_zero(a[0] - b[0], self.facts) is not True:
                continue
            k = sym.fresh_index(a[0])
            ok = True
            for x, y in zip(a[1:], b[1:]):
                u, v = x.at(k) if isinstance(x.body, Poly) else \
                    x.body.subst({x.bv: k}), \
                    y.at(k) if isinstance(y.body, Poly) else \
                    y.body.subst({y.bv: k})
                if isinstance(u, Poly):
                    if prover.prove_zero(u - v.scale(sg), self.facts) \
                            is not True:
                        ok = False
                        break
                elif prover.prove_form(form.f_iff(u, v), self.facts,
                                       1500) is not True:
                    ok = False
                    break
            if ok:
                self.add(e)
                n += 1
        return n

    def prove_eq(self, g, p):
        """guard g -> p == 0"""
        if p.is_zero():
            return True, "ring"
        self.add(g)
        for rnd in range(3):
            if rnd and not self.instantiate([eq0(p)] if not prover.indicators(p)
                                            else []):
                break
            if prover.prove_zero(p, self.facts) is True:
                return True, "ring" if not rnd else "ring+inst"
        return None, "open"

    def prove(self, goal):
        if goal.kind == "not" and goal.args[0].kind == "forall":
            self.add(goal.args[0])
            self.terms.append(ZERO)
            return self._core(FALSE)
        if goal is TRUE:
            return True, "trivial"
        if goal.kind == "and":
            for g in goal.args:
                r, why = Proof(self.facts, [(m, "") for m in self.univ
                                            if not isinstance(m, tuple)],
                               self.terms).prove(g)
                if r is not True:
                    return r, why
            return True, "and"
        if goal.kind == "forall":
            ws = [ring.fresh("k", integer=True, nonneg=True)
                  for _ in goal.args[0]]
            g, b = form.inst(goal, ws)
            self.terms += ws
            self.add(g)
            return self.prove(b)
        if goal.kind == "or":
            # A1 | ... | An : assume the negation of all but one
            fs = list(goal.args)
            pick = None
            for f in fs:
                if f.kind == "forall":
                    pick = f
                    break
            if pick is None:
                for f in fs:
                    if f.kind == "eq":
                        pick = f
                        break
            if pick is None:
                ands = [f for f in fs if f.kind == "and"]
                res = (None, "open")
                for a in ands if not any(
                        form.heavy(q) for q in form._polys(fs)) else []:
                    pr = Proof(self.facts, [(m, "") for m in self.univ
                                            if not isinstance(m, tuple)],
                               self.terms)
                    for f in fs:
                        if f is not a:
                            pr.add(f_not(f))
                    res = pr.prove(a)
                    if res[0] is True:
                        return res
                lts = [f for f in fs if (f.args[0] if f.kind == "not" else
                                         f).kind == "lt"]
                if lts:
                    pick = max(lts, key=lambda f: (
                        not (f.args[0] if f.kind == "not" else f)
                        .args[0].is_integer(),
                        len((f.args[0] if f.kind == "not" else f)
                            .args[0].t)))
                elif ands:
                    return res
            if pick is not None:
                for f in fs:
                    if f is not pick:
                        self.add(f_not(f))
                return self.prove(pick)
        return self._core(goal)

    def _core(self, goal):
        r = prover.prove_form(goal, self.facts)
        if r is True:
            return True, "base"
        last = r
        if not self.unfolded:
            ps = list(form._polys([goal]))
            if any(ring.has_defs(p) for p in ps):
                g = goal.pmap(ring.expand_defs)
                pr = Proof([f.pmap(ring.expand_defs) for f in self.facts],
                           [], self.terms)
                pr.univ = [(lambda t, mk=mk: mk(t).pmap(ring.expand_defs))
                           if not isinstance(mk, tuple) else mk
                           for mk in self.univ]
                pr.univ_terms = [set() for _ in pr.univ]
                pr.unfolded = True
                self.unfolded = True
                r, why = self._core(goal)
                if r is True:
                    return r, why
                r, why = pr._core(g)
                return r, why + "+unfold"
        for rnd in range(4):
            n = self.instantiate([goal], arith=rnd >= 2)
            if rnd == 0:
                n += self.arg_extensionality(goal)
            if not n:
                if rnd < 2:
                    continue
                break
            r = prover.prove_form(goal, self.facts)
            if r is True:
                return True, "inst%d" % rnd
            last = r
        # inconsistent facts?
        if form.check(self.facts, 6000) == "unsat":
            return True, "infeasible"
        return last, "open"


def solved(facts):
    """substitution by the equalities among the facts"""
    mp = {}
    for f in facts:
        if f.kind != "eq":
            continue
        s = prover._lin_solve(ring.subst(f.args[0], mp))
        if s is None:
            continue
        one = {s[0]: s[1]}
        mp = {k: ring.subst(v, one) for k, v in mp.items()}
        mp[s[0]] = s[1]
    return mp


def merge_defs(p, facts):
    """identify names whose definitions are provably equal"""
    ds = sorted({a for m in p.t for a, _ in m if get_atom(a).kind == "Def"})
    rep = []
    for a in ds[:12]:
        for b in rep:
            x, y = get_atom(a).args[0], get_atom(b).args[0]
            try:
                if prover.prove_zero(x - y, facts) is True:
                    p = prover.replace_atom(p, a, mono1(get_atom(b)))
                    break
            except Unsupported:
                pass
        else:
            rep.append(a)
    return p


def discharge(o, limit=40):
    t0 = time.time()
    prover.DEADLINE[0] = t0 + limit
    try:
        r = None
        if o.zero is not None:
            pr = Proof(o.facts, o.foralls, o.terms)
            r, why = pr.prove_eq(*o.zero)
            if r is not True and ring.has_defs(o.zero[1]):
                q = merge_defs(o.zero[1], o.facts)
                if q != o.zero[1]:
                    pr = Proof(o.facts, o.foralls, o.terms)
                    r, why = pr.prove_eq(o.zero[0], q)
                    why += "+names"
            if r is not True and ring.has_defs(o.zero[1]):
                q = ring.expand_defs(o.zero[1])
                pr = Proof(o.facts, o.foralls, o.terms)
                r, why = pr.prove_eq(o.zero[0], q)
                why += "+unfold"
        if r is not True:
            pr = Proof(o.facts, o.foralls, o.terms)
            r, why = pr.prove(o.form)
        if r is not True:
            mp = solved(o.facts)
            if mp:
                pr = Proof([f.subst(mp) for f in o.facts],
                           [((lambda t, mk=mk: mk(t).subst(mp)), w)
                            for mk, w in o.foralls if mk is not None],
                           [ring.subst(t, mp) for t in o.terms])
                if o.zero is not None:
                    r, why = pr.prove_eq(o.zero[0].subst(mp),
                                         ring.subst(o.zero[1], mp))
                else:
                    r, why = pr.prove(o.form.subst(mp))
                why += "+solved"
        o.backend = why
        if r is True:
            o.status = "proved"
        else:
            o.status = "failed"
            o.detail = ("goal: %s" % (str(o.form)[:1500])) + (
                " [refuted in the theory]" if r is False else " [unproved]")
            o.hints = model_hints(o, pr)
    except prover.ProofTimeout:
        o.status = "timeout"
        o.detail = "goal: %s" % (str(o.form)[:800])
    except Unsupported as e:
        o.status = "unsupported"
        o.detail = "unsupported: %s; goal: %s" % (e, str(o.form)[:500])
    except RecursionError:
        o.status = "unsupported"
        o.detail = "unsupported: recursion depth"
    finally:
        prover.DEADLINE[0] = None
    o.wall = time.time() - t0


def model_hints(o, pr):
    h = {}
    try:
        r, m = form.check(pr.facts + [f_not(o.form)], 3000, want_model=True)
        if r != "sat":
            r, m = form.check(pr.facts, 3000, want_model=True)
        if r == "sat":
            model, tr = m
            for nm, v in o.inputs.items():
                x = tr.av.get(ring.atom_of(v).id)
                if x is None:
                    continue
                val = model.eval(x)
                try:
                    if hasattr(val, "as_long"):
                        h[nm] = val.as_long()
                    elif hasattr(val, "as_fraction"):
                        h[nm] = float(val.as_fraction())
                except Exception:
                    pass
    except BaseException:
        pass
    return h


class Report:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.ended = 0
        self.covers = set()
        self.problems = []     # unsupported constructs
        self.wall = 0


def reset_path():
    Buf._n[0] = 100000
    del GENERIC[:]
    del rt.WHILES[:]
    rt._bufs.clear()


def reachable(p):
    """False if the path condition is proved contradictory"""
    prover.DEADLINE[0] = time.time() + 20
    try:
        if not p.feasible():
            return False
        r, _ = Proof(p.facts, p.foralls, p.terms).prove(FALSE)
        return r is not True
    except (prover.ProofTimeout, Unsupported):
        return True


def run(name, h, proj, budget=240, obl_limit=60, max_paths=400,
        max_fail=6, fixed=None, known=()):
    rep = Report(name)
    t0 = time.time()
    nfail = nopen = 0
    rt.HAVOC.clear()
    rt.GENLOOPS.clear()
    rt.DROPPED.clear()
    work = [[]]
    restarts = 0
    while work:
        prefix = work.pop()
        if time.time() - t0 > budget:
            rep.problems.append("time budget exhausted with %d paths left"
                                % (len(work) + 1))
            break
        if rep.paths > max_paths:
            rep.problems.append("too many paths")
            break
        for attempt in range(60):
            reset_path()
            rt.FULL[0] = False
            del rt.INVARIANTS[:]
            p = Path(prefix)
            Path.cur = p
            c = SymCtx(proj, fixed)
            ext = dict(proj.external)
            prover.DEADLINE[0] = time.time() + max(60, budget / 2)
            err = None
            try:
                h(c)
            except PathEnd:
                rep.ended += 1
            except Restart:
                if rt.FULL[0] and restarts < 40:
                    break
                continue
            except Unsupported as e:
                if reachable(p):
                    rep.problems.append("unsupported: %s (path %s)"
                                        % (e, c.choices))
                    if TRACE[0]:
                        import traceback
                        traceback.print_exc()
            except prover.ProofTimeout:
                rep.problems.append("timeout while executing (path %s)"
                                    % (c.choices,))
            except RecursionError:
                rep.problems.append("recursion limit")
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join("%s:%s" % (f.filename.split("/")[-1],
                                             f.lineno) for f in tb[-3:])
                if TRACE[0]:
                    traceback.print_exc()
                if isinstance(e, (TypeError, AttributeError, KeyError,
                                  RuntimeError, AssertionError,
                                  z3.Z3Exception)) and not getattr(
                        e, "modelled", False) or (
                        isinstance(e, NameError) and "/pyvc/" in
                        tb[-1].filename):
                    # may be a gap of the shim: the run-time contract check
                    # on the real code decides
                    if reachable(p):
                        rep.problems.append("unsupported: %s: %s at %s (path "
                                            "%s)" % (type(e).__name__, e,
                                                     where, c.choices))
                    break
                f = FALSE
                o = Obl("no exception (%s)" % type(e).__name__, f, p, c)
                o.detail = "%s: %s at %s" % (type(e).__name__, e, where)
                p.obls.append(o)
            finally:
                prover.DEADLINE[0] = None
                c.restore()
                proj.external.clear()
                proj.external.update(ext)
                npshim.RANDOM_STUBS.clear()
            break
        else:
            rep.problems.append("loop generalisation did not stabilise")
            continue
        if rt.FULL[0]:
            # what is known about a loop has changed: all paths again
            restarts += 1
            work = [[]]
            rep = Report(name)
            nfail = nopen = 0
            continue
        work += p.alts
        if any(v and k not in c.asked for k, v in c.fixed.items()):
            continue        # this path belongs to the job with value 0
        rep.paths += 1
        if p.broken:
            rep.problems.append("unsupported: %s" % p.broken)
        for k in p.labels:
            if isinstance(k, str) and k.startswith("cover:"):
                rep.covers.add(k[6:])
        for o in p.obls:
            if nfail >= max_fail and o.form is not TRUE:
                continue
            if o.form is not TRUE:
                if time.time() - t0 > budget:
                    o.status = "timeout"
                    o.detail = "time budget exhausted"
                else:
                    d0 = o.detail
                    discharge(o, obl_limit if nopen < 3 and
                              o.name not in known else
                              min(obl_limit, 10))
                    if o.name not in known:
                        nfail += o.status == "failed"
                        nopen += o.status != "proved"
                    if d0:
                        o.detail = d0 + " | " + o.detail
            else:
                o.status = "proved"
                o.backend = "trivial"
            rep.obls.append(o)
        Path.cur = None
        if nfail >= max_fail:
            break
        if nopen >= max_fail:
            rep.problems.append("stopped after %d open obligations" % nopen)
            break
    rep.wall = time.time() - t0
    return rep


TRACE = [False]
