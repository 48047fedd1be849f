"""Formulas over ring terms and their translation to SMT (z3 / cvc5)."""
from fractions import Fraction
import z3
from . import ring
from .ring import Poly, P, ONE, ZERO, get_atom, Unsupported

_interned = {}


class Form:
    __slots__ = ("kind", "args", "deps", "depth", "id")

    def subst(self, mp):
        if self.deps.isdisjoint(mp):
            return self
        k = self.kind
        if k == "lt":
            return lt0(ring.subst(self.args[0], mp))
        if k == "eq":
            return eq0(ring.subst(self.args[0], mp))
        if k == "bapp":
            return bapp(self.args[0], [ring.subst(a, mp)
                                       for a in self.args[1:]])
        if k == "not":
            return f_not(self.args[0].subst(mp))
        if k == "and":
            return f_and(*[a.subst(mp) for a in self.args])
        if k == "or":
            return f_or(*[a.subst(mp) for a in self.args])
        if k == "forall":
            qs, g, f = self.args
            ks = [ring.fresh("q", integer=True, nonneg=True) for _ in qs]
            m1 = {ring.atom_of(q).id: x for q, x in zip(qs, ks)}
            return forall(ks, g.subst(m1).subst(mp), f.subst(m1).subst(mp))
        raise Unsupported("subst in formula " + k)

    def pmap(self, fn):
        """apply fn to the polynomials (not below quantifiers)"""
        k = self.kind
        if k == "lt":
            return lt0(fn(self.args[0]))
        if k == "eq":
            return eq0(fn(self.args[0]))
        if k == "not":
            return f_not(self.args[0].pmap(fn))
        if k == "and":
            return f_and(*[a.pmap(fn) for a in self.args])
        if k == "or":
            return f_or(*[a.pmap(fn) for a in self.args])
        return self

    def __repr__(self):
        k = self.kind
        if k == "lt":
            return "(%s < 0)" % (self.args[0],)
        if k == "eq":
            return "(%s == 0)" % (self.args[0],)
        if k == "not":
            return "!%r" % (self.args[0],)
        if k in ("and", "or"):
            return "(" + (" %s " % k).join(map(repr, self.args)) + ")"
        if k == "bapp":
            return "%s(%s)" % (self.args[0],
                               ", ".join(map(str, self.args[1:])))
        return k


def _mk(kind, args=(), deps=frozenset(), depth=0):
    key = (kind,) + tuple(args)
    f = _interned.get(key)
    if f is None:
        f = Form()
        f.kind = kind
        f.args = tuple(args)
        f.deps = deps
        f.depth = depth
        f.id = len(_interned)
        _interned[key] = f
    return f


TRUE = _mk("true")
FALSE = _mk("false")


def f_bool(b):
    return TRUE if b else FALSE


def f_not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.kind == "not":
        return f.args[0]
    return _mk("not", (f,), f.deps, f.depth)


def _nary(kind, unit, zero, fs):
    s = {}
    for f in fs:
        if f is unit:
            continue
        if f is zero:
            return zero
        if f.kind == kind:
            for g in f.args:
                s[g.id] = g
        else:
            s[f.id] = f
    for g in s.values():
        if f_not(g).id in s:
            return zero
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s.values()))
    args = tuple(s[i] for i in sorted(s))
    deps = frozenset().union(*[a.deps for a in args])
    return _mk(kind, args, deps, max(a.depth for a in args))


def f_and(*fs):
    return _nary("and", TRUE, FALSE, fs)


def f_or(*fs):
    return _nary("or", FALSE, TRUE, fs)


def f_imp(a, b):
    return f_or(f_not(a), b)


def units(facts):
    """literals known to hold (ids)"""
    out = set()
    st = list(facts)
    while st:
        f = st.pop()
        if f.kind == "and":
            st += f.args
        elif f.kind != "or":
            out.add(f.id)
    return out


def simp_units(f, lits):
    """f simplified under the known literals"""
    if f.kind in ("and", "or"):
        if f.id in lits:
            return TRUE
        args = [simp_units(g, lits) for g in f.args]
        return (f_and if f.kind == "and" else f_or)(*args)
    if f.id in lits:
        return TRUE
    if f is not TRUE and f is not FALSE and f_not(f).id in lits:
        return FALSE
    return f


def case_literal(f):
    """a literal every alternative of a disjunction decides (the guard of a
    lifted conditional)"""
    if f.kind == "and":
        f = f_not(f)
    if f.kind != "or" or len(f.args) > 8:
        return None
    sets = [set(g.args if g.kind == "and" else (g,)) for g in f.args]
    for g in sorted(sets[0], key=lambda x: x.id):
        h = f_not(g)
        if all(g in s or h in s for s in sets) and \
                any(h in s for s in sets):
            return g
    return None


def f_ite(c, a, b):
    return f_or(f_and(c, a), f_and(f_not(c), b))


def f_iff(a, b):
    return f_ite(a, b, f_not(b))


def _strip(p):
    """Divide by a positive factor: positive atoms and |rational content|."""
    c, mono, q = ring._content(p)
    rest = ONE
    for a, e in mono:
        at = get_atom(a)
        if not at.pos:
            rest = rest * ring._atom_pow(at, e)
    out = q * rest
    return out.scale(1 if c > 0 else -1)


def _lift(p, f):
    s = ring.ind_atoms(p)
    if not s:
        return f(p)
    i = min(s)
    c = get_atom(i).args[0]
    return f_ite(c, _lift(ring.set_ind(p, i, 1), f),
                 _lift(ring.set_ind(p, i, 0), f))


def _clear_den(p):
    """multiply by the lcm of coefficient denominators / integer content"""
    from math import gcd
    l = 1
    for c in p.t.values():
        d = c.denominator if isinstance(c, Fraction) else 1
        l = l * d // gcd(l, d)
    if l != 1:
        p = p.scale(l)
    return p


def _int_scale(p):
    from math import gcd
    p = _clear_den(p)
    g = 0
    for m, c in p.t.items():
        g = gcd(g, int(c))
    return p, g


def lt0(p):
    return _lift(p, _lt0)


def _lt0(p):
    if p.is_const():
        return f_bool(p.const() < 0)
    if not p.is_real():
        raise Unsupported("ordering of complex values")
    if ring.is_nonneg(p):
        return FALSE
    p = _clear_den(_strip(p))
    if p.is_const():
        return f_bool(p.const() < 0)
    if p.is_integer():
        # integer: normalise gcd of the non-constant part, then orientation
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, int(c))
        if g > 1:
            # g*q + c < 0  <=>  q < -c/g  <=> q + ceil(c/g) < 0 when.. use
            # q <= ceil(-c/g)-1  <=>  q - ceil(-c/g) + 1 <= 0 <=> q-ceil(-c/g)<0
            c = int(p.const()) if () in p.t else 0
            q = Poly({m: int(v) // g for m, v in p.t.items() if m})
            ce = -((c) // g)          # ceil(-c/g)
            p = q - P(ce)
            if p.is_const():
                return f_bool(p.const() < 0)
        lead = min(m for m in p.t if m)
        if p.t[lead] < 0:
            return f_not(_mk("lt", ((-p) - 1,), p.deps, p.depth))
        return _mk("lt", (p,), p.deps, p.depth)
    return _mk("lt", (p,), p.deps, p.depth)


def le0(p):
    return f_not(lt0(-p))


def eq0(p):
    if not p.is_real():
        return f_and(eq0(ring.re(p)), eq0(ring.im(p)))
    return _lift(p, _eq0)


def _eq0(p):
    if p.is_const():
        return f_bool(p.const() == 0)
    c, mono, q = ring._content(p)
    facs = []
    for a, e in mono:
        at = get_atom(a)
        if at.pos or e < 0 or at.kind in ("Inv", "E", "i"):
            continue
        facs.append(ring.mono1(at))
    if not q.is_real() and (q * ring.I).is_real():
        q = q * ring.I
    if q.is_const():
        if not facs:
            return FALSE
        if len(facs) > 1:
            return f_or(*[_eq0(x) for x in facs])
        q = facs[0]
    elif facs:
        return f_or(_eq0(q), *[_eq0(x) for x in facs])
    if q.is_integer() and q.const() and all(True for _ in [0]):
        from math import gcd
        g = 0
        for m, c in q.t.items():
            if m:
                g = gcd(g, int(c))
        if g and int(q.const()) % g:
            return FALSE
    lead = min(q.t)
    if q.t[lead] < 0:
        q = -q
    if all(c > 0 for c in q.t.values()) and () in q.t and ring.is_nonneg(q):
        return FALSE
    return _mk("eq", (q,), q.deps, q.depth)


def bapp(name, args):
    def go(args, i):
        while i < len(args):
            s = ring.ind_atoms(args[i])
            if s:
                j = min(s)
                c = get_atom(j).args[0]
                return f_ite(c, go([ring.set_ind(a, j, 1) for a in args], i),
                             go([ring.set_ind(a, j, 0) for a in args], i))
            i += 1
        deps = frozenset().union(*[a.deps for a in args]) if args \
            else frozenset()
        return _mk("bapp", (name,) + tuple(args), deps,
                   max((a.depth for a in args), default=0))
    return go(list(args), 0)


def forall(ks, g, f):
    """for all integers ks: g -> f"""
    if f is TRUE or g is FALSE:
        return TRUE
    d = max(g.depth, f.depth) + 1
    qs = tuple(ring.var("_q%d_%d" % (d, j), integer=True, nonneg=True)
               for j in range(len(ks)))
    mp = {ring.atom_of(k).id: q for k, q in zip(ks, qs)}
    g2, f2 = g.subst(mp), f.subst(mp)
    ids = frozenset(ring.atom_of(q).id for q in qs)
    return _mk("forall", (qs, g2, f2), (g2.deps | f2.deps) - ids, d)


def inst(fa, ts):
    """(guard, body) of a forall formula at the terms ts"""
    qs, g, f = fa.args
    mp = {ring.atom_of(q).id: t for q, t in zip(qs, ts)}
    return g.subst(mp), f.subst(mp)


# ---------------------------------------------------------------- SMT
VARFACTS = {}      # atom id -> [Form]


def add_varfact(p, form):
    VARFACTS.setdefault(ring.atom_of(p).id, []).append(form)


STATS = {"z3": 0, "z3_time": 0.0, "cvc5": 0, "poly": 0, "poly_time": 0.0,
         "unknown": 0}


class Trans:
    """formulas -> z3.  linear: products are opaque (sound, fast); uni maps a
    polynomial to (polynomial, sign) with the same sign at every point."""

    def __init__(self, linear=False, uni=None):
        self.linear = linear
        self.uni = uni or {}
        self.av = {}
        self.side = []
        self.seen = set()
        self.funs = {}
        self.todo = []
        self.keep = []
        self.exps = []

    def atom(self, at):
        r = self.av.get(at.id)
        if r is not None:
            return r
        k = at.kind
        nm = "a%d" % at.id
        if k == "pi":
            r = z3.Real("pi")
            self.side += [r > z3.Q(314159, 100000), r < z3.Q(314160, 100000)]
            self.av[at.id] = r
            return r
        if k == "app" and at.real and not at.args[1]:
            args = [self.poly(a) for a in at.args[2:]
                    if isinstance(a, Poly) and a.is_real()]
            lam = tuple(a for a in at.args[2:]
                        if not (isinstance(a, Poly) and a.is_real()))
            if args:
                fk = (at.args[0], lam, tuple(a.sort() for a in args))
                f = self.funs.get(fk)
                if f is None:
                    f = z3.Function("f%d" % len(self.funs), *[
                        a.sort() for a in args],
                        z3.IntSort() if at.integer else z3.RealSort())
                    self.funs[fk] = f
                r = f(*args)
                self.av[at.id] = r
                if at.args[0] in ("row", "pos"):
                    # element q of a list of chunks (valid index q)
                    n, lam, tot, q = at.args[2:]
                    lim = n
                    if at.args[0] == "pos":
                        lim = lam.at(ring.app("row", [n, lam, tot, q],
                                              integer=True, nonneg=True))
                    q_ = self.poly(q)
                    self.side.append(z3.Implies(
                        z3.And(q_ >= 0, q_ < self.poly(tot)),
                        r < self.poly(lim)))
                if at.pos:
                    self.side.append(r > 0)
                elif at.nonneg:
                    self.side.append(r >= 0)
                self.facts(at)
                return r
        if k == "ind":
            r = z3.If(self.form(at.args[0]), z3.IntVal(1), z3.IntVal(0))
            self.av[at.id] = r
            return r
        if k == "Abs":
            x = self.poly(at.args[0])
            r = z3.If(x >= 0, x, -x)
            self.av[at.id] = r
            return r
        r = z3.Int(nm) if at.integer else z3.Real(nm)
        self.av[at.id] = r
        if at.pos:
            self.side.append(r > 0)
        elif at.nonneg:
            self.side.append(r >= 0)
        if self.linear and (k in ("Sqrt", "Inv") or (
                k == "fdiv" and not at.args[1].is_const())):
            self.facts(at)
            return r
        if k == "fdiv":
            a, b = self.poly(at.args[0]), self.poly(at.args[1])
            self.side.append(z3.Implies(b > 0, z3.And(b * r <= a,
                                                      a < b * r + b)))
        elif k == "floor":
            a = self.poly(at.args[0])
            if z3.is_int(a):
                a = z3.ToReal(a)
            self.side.append(z3.And(z3.ToReal(r) <= a, a < z3.ToReal(r) + 1))
        elif k == "Sqrt":
            x = self.poly(at.args[0])
            self.side.append(z3.Implies(x >= 0, r * r == x))
        elif k == "Inv" and at.real:
            x = self.poly(at.args[0])
            self.side.append(r * x == 1)
        elif k == "Exp" and not self.linear:
            self._monotone(at, r)
        self.facts(at)
        return r

    def _monotone(self, at, r):
        """exp increases and exp(0) = 1"""
        if len(self.exps) >= 3:
            return
        x = self.poly(at.args[0])
        self.side.append((x > 0) == (r > 1))
        for y, s in self.exps:
            self.side += [(x > y) == (r > s), (x < y) == (r < s)]
        self.exps.append((x, r))

    def facts(self, at):
        if at.id in self.seen:
            return
        self.seen.add(at.id)
        for f in VARFACTS.get(at.id, ()):
            self.todo.append(f)

    def mono(self, m):
        realpart = []
        cplx = []
        for a, e in m:
            at = get_atom(a)
            if at.real:
                realpart.append((at, e))
            else:
                cplx.append((a, e))
        r = None
        inds = [self.form(at.args[0]) for at, e in realpart
                if at.kind == "ind"]
        realpart = [x for x in realpart if x[0].kind != "ind"]
        if self.linear and (len(realpart) > 1 or
                            any(e != 1 for _, e in realpart)):
            key = ("mono", tuple((at.id, e) for at, e in realpart))
            r = self.av.get(key)
            if r is None:
                it = all(at.integer and e > 0 for at, e in realpart)
                r = (z3.Int if it else z3.Real)("m%d" % len(self.av))
                self.av[key] = r
                if all(at.pos for at, e in realpart):
                    self.side.append(r > 0)
                elif all(at.pos or at.nonneg or e % 2 == 0
                         for at, e in realpart):
                    self.side.append(r >= 0)
                for at, e in realpart:
                    self.facts(at)
            realpart = []
        for at, e in realpart:
            x = self.atom(at)
            if e < 0:
                key = ("inv", at.id)
                y = self.av.get(key)
                if y is None:
                    y = z3.Real("inv_%d" % at.id)
                    self.av[key] = y
                    xr = z3.ToReal(x) if z3.is_int(x) else x
                    self.side.append(z3.Implies(xr != 0, y * xr == 1))
                    if at.pos:
                        self.side.append(y > 0)
                x, e = y, -e
            for _ in range(e):
                if r is None:
                    r = x
                else:
                    if z3.is_int(r) and not z3.is_int(x):
                        r = z3.ToReal(r)
                    elif z3.is_int(x) and not z3.is_int(r):
                        x = z3.ToReal(x)
                    r = r * x
        if inds:
            g = z3.And(*inds) if len(inds) > 1 else inds[0]
            if r is None:
                r = z3.If(g, z3.IntVal(1), z3.IntVal(0))
            else:
                r = z3.If(g, r, z3.IntVal(0) if z3.is_int(r)
                          else z3.RealVal(0))
        return r, tuple(cplx)

    def poly(self, p):
        tot = None
        reals = p
        extra = {}
        for m, c in p.t.items():
            r, cx = self.mono(m)
            if cx:
                # opaque real part; pair with its conjugate
                extra.setdefault(cx, []).append((c, r))
                continue
            tot = self._acc(tot, c, r)
        if extra:
            if not p.is_real():
                raise Unsupported("complex term in SMT query: %s" % str(p)[:1500])
            for cx, lst in extra.items():
                w = Poly({cx: 1})
                cw = ring.conj(w)
                kw, kc = w, cw
                rep = min(min(kw.t), min(kc.t)) if len(kc.t) == 1 else min(
                    kw.t)
                key = ("re", rep)
                x = self.av.get(key)
                if x is None:
                    x = z3.Real("re_%d" % len(self.av))
                    self.av[key] = x
                sgn = 1
                if len(kc.t) == 1:
                    sgn = 1
                    mm = min(kc.t)
                    if rep == mm and rep != cx:
                        sgn = kc.t[mm]
                for c, r in lst:
                    if self.linear and r is not None:
                        key = ("cm", rep, r.get_id())
                        t = self.av.get(key)
                        if t is None:
                            t = z3.Real("cm%d" % len(self.av))
                            self.av[key] = t
                            self.keep.append(r)
                        tot = self._acc(tot, c * sgn, t)
                        continue
                    t = x if r is None else (
                        (z3.ToReal(r) if z3.is_int(r) else r) * x)
                    tot = self._acc(tot, c * sgn, t)
        if tot is None:
            return z3.IntVal(0)
        return tot

    @staticmethod
    def _acc(tot, c, r):
        if isinstance(c, Fraction):
            cv = z3.Q(c.numerator, c.denominator)
        elif r is None or z3.is_int(r):
            cv = z3.IntVal(c)
        else:
            cv = z3.RealVal(c)
        if r is None:
            t = cv
        else:
            if z3.is_int(r) and not z3.is_int(cv):
                r = z3.ToReal(r)
            t = r if c == 1 else cv * r
        if tot is None:
            return t
        if z3.is_int(tot) and not z3.is_int(t):
            tot = z3.ToReal(tot)
        elif z3.is_int(t) and not z3.is_int(tot):
            t = z3.ToReal(t)
        return tot + t

    def form(self, f):
        r = self.av.get(("f", f.id))
        if r is not None:
            return r
        k = f.kind
        if k == "true":
            r = z3.BoolVal(True)
        elif k == "false":
            r = z3.BoolVal(False)
        elif k == "lt":
            q, sg = self.uni.get(f.args[0], (f.args[0], 1))
            r = self.poly(q) < 0 if sg > 0 else self.poly(q) > 0
        elif k == "eq":
            q, sg = self.uni.get(f.args[0], (f.args[0], 1))
            r = self.poly(q) == 0
        elif k == "not":
            r = z3.Not(self.form(f.args[0]))
        elif k == "and":
            r = z3.And(*[self.form(a) for a in f.args])
        elif k == "or":
            r = z3.Or(*[self.form(a) for a in f.args])
        elif k == "bapp":
            args = [self.poly(a) for a in f.args[1:]]
            fk = ("b", f.args[0], tuple(a.sort() for a in args))
            fn = self.funs.get(fk)
            if fn is None:
                if args:
                    fn = z3.Function("p%d" % len(self.funs),
                                     *[a.sort() for a in args], z3.BoolSort())
                else:
                    fn = z3.Bool("p%d" % len(self.funs))
                self.funs[fk] = fn
            r = fn(*args) if args else fn
        elif k == "forall":
            r = z3.Bool("q%d" % f.id)
        else:
            raise Unsupported("formula " + k)
        self.av[("f", f.id)] = r
        return r

    def all_side(self):
        """side conditions incl. registered variable facts (fixpoint)."""
        out = []
        while self.todo or self.side:
            out += self.side
            self.side = []
            td, self.todo = self.todo, []
            for f in td:
                out.append(self.form(f))
        return out


def var_atoms(forms):
    """all atoms with registered facts mentioned anywhere in the formulas"""
    return None


def heavy(p):
    """nonlinear polynomial that z3 should not see in full"""
    return len(p.t) > 25 or sum(len(m) for m in p.t) > 80


def _polys(forms):
    out, seen, st = [], set(), list(forms)
    while st:
        f = st.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        if f.kind in ("lt", "eq"):
            out.append(f.args[0])
        else:
            st += [x for x in f.args if isinstance(x, Form)]
    return out


def _solve(forms, timeout, linear, uni):
    import time
    t0 = time.time()
    tr = Trans(linear, uni)
    s = z3.Solver()
    s.set("timeout", timeout * 4)
    s.set("rlimit", timeout * 1500)
    try:
        for f in forms:
            s.add(tr.form(f))
        for c in tr.all_side():
            s.add(c)
        r = str(s.check())
    except z3.Z3Exception as e:
        r = "unknown"
    STATS["z3"] += 1
    STATS["z3_time"] += time.time() - t0
    return r, s, tr


def check(forms, timeout=3000, want_model=False, uni=None, full=True):
    """satisfiability of the conjunction: 'sat' / 'unsat' / 'unknown'."""
    forms = [f for f in forms if f is not TRUE]
    if any(f is FALSE for f in forms):
        return ("unsat", None) if want_model else "unsat"
    r, s, tr = _solve(forms, timeout, True, uni)
    if r != "unsat" and full:
        if any(heavy(p) for p in _polys(forms)):
            # the heavy polynomials stay opaque
            light = [f for f in forms if not any(
                heavy(p) for p in _polys([f]))]
            r = "unknown"
            if light:
                r2, s, tr = _solve(light, timeout, False, uni)
                if r2 == "unsat":
                    r = r2
        else:
            r, s, tr = _solve(forms, timeout, False, uni)
    elif r != "unsat":
        r = "unknown"
    if r == "unknown":
        STATS["unknown"] += 1
    if want_model:
        m = None
        try:
            m = (s.model(), tr)
        except z3.Z3Exception:
            pass
        return r, m
    return r


_memo = {}


def entails(facts, goal, timeout=3000, uni=None):
    """True if facts |= goal is proved; False if refuted; None unknown."""
    if goal is TRUE:
        return True
    key = (frozenset(f.id for f in facts), goal.id, bool(uni))
    r = _memo.get(key)
    if r is not None and r[0] >= timeout:
        return r[1]
    c = check(list(facts) + [f_not(goal)], timeout, uni=uni)
    v = {"unsat": True, "sat": False, "unknown": None}[c]
    _memo[key] = (timeout, v)
    return v
