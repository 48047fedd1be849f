"""Symbolic values: scalars S, booleans B, arrays SymArr, and path state."""
from fractions import Fraction
from . import ring, form
from .ring import Poly, P, ONE, ZERO, Unsupported, mono1, get_atom, inv
from .form import (TRUE, FALSE, f_not, f_and, f_or, lt0, le0, eq0, f_ite,
                   f_bool)


class PathEnd(BaseException):
    """This path is finished (assumption false / cut)."""


class Restart(BaseException):
    pass


class Path:
    cur = None

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.facts = []
        self.foralls = []      # (mk(idx)->Form)  universally true
        self.obls = []
        self.written = []
        self.notes = []
        self.labels = {}
        self.terms = []        # interesting index terms for instantiation
        self.dry = 0
        self.epoch = 0         # changes when facts are retracted
        self._ep = 0
        self.broken = None
        self.counts = {}       # "no member" formula -> filtered axis

    def new_epoch(self):
        self._ep += 1
        self.epoch = self._ep

    def add(self, f):
        if f is TRUE:
            return
        if f.kind == "and":
            for g in f.args:
                self.add(g)
            return
        if f not in self.facts:
            self.facts.append(f)

    def all_facts(self):
        return list(self.facts)

    def feasible(self, extra=(), timeout=2000):
        return form.check(self.facts + list(extra), timeout) != "unsat"

    def decide(self, f, why=""):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if f in self.facts:
            return True
        if f_not(f) in self.facts:
            return False
        if not self.dry:
            for g, v in ((f, False), (f_not(f), True)):
                d = self.counts.get(g.id)
                if d is not None:
                    from .index import nonempty
                    return nonempty(d) == v
        if f.kind in ("and", "or"):
            g = form.simp_units(f, form.units(self.facts))
            if g is not f:
                return self.decide(g)
            g = form.case_literal(f)
            if g is not None and not self.dry:
                self.decide(g)
                h = form.simp_units(f, form.units(self.facts))
                if h is not f:
                    return self.decide(h)
        r = form.entails(self.facts, f, 2000)
        if r is True:
            return True
        r = form.entails(self.facts, f_not(f), 2000)
        if r is True:
            return False
        if self.dry:
            raise Unsupported("branch inside an element function")
        return self.fork(f)

    def fork(self, f):
        n = len(self.taken)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            v = True
            self.alts.append(self.taken + [False])
        self.taken.append(v)
        if f is not None:
            self.add(f if v else f_not(f))
        if len(self.taken) > 60:
            raise Unsupported("too many branches on one path")
        return v

    def choose(self, n):
        """nondeterministic choice 0..n-1 (forks)."""
        for i in range(n - 1):
            if self.fork(None):
                return i
        return n - 1


def path():
    p = Path.cur
    if p is None:
        raise RuntimeError("no active path")
    return p


def _fdiv_hook(a, b):
    p = Path.cur
    if p is None:
        return None
    # cheap attempts: quotient 0 / -1 / 1
    for q in (0, -1, 1):
        f = f_and(le0(b.scale(q) - a), lt0(a - b.scale(q + 1)))
        if f is FALSE:
            continue
        if form.entails(p.facts, f, 800) is True:
            return P(q)
    return None


ring.FDIV_HOOK[0] = _fdiv_hook


# ---------------------------------------------------------------- scalars
class B:
    __slots__ = ("f",)
    _is_vc = True

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return path().decide(self.f)

    def __and__(self, o):
        if isinstance(o, SymArr):
            return NotImplemented
        return B(f_and(self.f, form_of(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymArr):
            return NotImplemented
        return B(f_or(self.f, form_of(o)))
    __ror__ = __or__

    def __invert__(self):
        return B(f_not(self.f))

    def __xor__(self, o):
        g = form_of(o)
        return B(f_ite(self.f, f_not(g), g))

    def _s(self):
        return S(ring.indicator(self.f))

    def __add__(self, o):
        return self._s() + o
    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, SymArr):
            return NotImplemented
        return self._s() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._s() - o

    def __rsub__(self, o):
        return S(P(0)) + o - self._s()

    def __eq__(self, o):
        if isinstance(o, (bool, B)):
            g = form_of(o)
            return B(f_ite(self.f, g, f_not(g)))
        return self._s() == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return "B(%r)" % (self.f,)

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self

    ndim = 0
    shape = ()


def form_of(x):
    if isinstance(x, B):
        return x.f
    if isinstance(x, bool):
        return f_bool(x)
    if isinstance(x, S):
        return f_not(eq0(x.fin()))
    if isinstance(x, (int, float)):
        return f_bool(bool(x))
    if x is None:
        return FALSE
    raise Unsupported("truth value of %r" % type(x))


INF = float("inf")


class S:
    """Scalar: finite value p, or +inf where infc holds, or NaN where nanc."""
    __slots__ = ("p", "infc", "isint", "nanc")
    _is_vc = True
    cplx = False
    __array_priority__ = 100

    def __init__(self, p, infc=None, isint=None, nanc=None):
        self.p = p
        self.infc = None if (infc is None or infc is FALSE) else infc
        self.nanc = None if (nanc is None or nanc is FALSE) else nanc
        self.isint = isint

    # sort: does Python see an int?
    def is_int(self):
        if self.isint is None:
            self.isint = self.p.is_integer()
        return self.isint

    def fin(self):
        if self.nanc is not None:
            if form.entails(path().facts, f_not(self.nanc), 1500) is not True:
                raise Unsupported("arithmetic on a possibly NaN value")
        if self.infc is not None:
            if form.entails(path().facts, f_not(self.infc), 1500) is not True:
                raise Unsupported("arithmetic on a possibly infinite value")
        return self.p

    def _bin(self, o, op):
        if isinstance(o, B):
            o = o._s()
        if isinstance(o, S):
            return op(self, o)
        if isinstance(o, (int, float, complex, Fraction)):
            return op(self, to_S(o))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, s_add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: s_add(a, s_neg(b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: s_add(b, s_neg(a)))

    def __mul__(self, o):
        return self._bin(o, s_mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, s_div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: s_div(b, a))

    def __floordiv__(self, o):
        return self._bin(o, s_fdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: s_fdiv(b, a))

    def __mod__(self, o):
        return self._bin(o, s_mod)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: s_mod(b, a))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, SymArr):
            return NotImplemented
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_pow(to_S(o), self)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __lt__(self, o):
        return s_cmp(self, o, "lt")

    def __le__(self, o):
        return s_cmp(self, o, "le")

    def __gt__(self, o):
        return s_cmp(self, o, "gt")

    def __ge__(self, o):
        return s_cmp(self, o, "ge")

    def __eq__(self, o):
        return s_cmp(self, o, "eq")

    def __ne__(self, o):
        r = s_cmp(self, o, "eq")
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __and__(self, o):
        if isinstance(o, SymArr):
            return NotImplemented
        return _b(self) & _b(o)

    def __hash__(self):
        return hash(self.p)

    def __bool__(self):
        return path().decide(f_not(eq0(self.fin())))

    def __index__(self):
        if self.p.is_const() and self.infc is None:
            c = self.p.const()
            if Fraction(c).denominator == 1:
                return int(c)
        raise Unsupported("symbolic value where a concrete int is needed")

    def __int__(self):
        if self.p.is_const() and self.infc is None:
            return int(self.p.const())
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        if self.p.is_const() and self.infc is None:
            return float(self.p.const())
        raise Unsupported("float() of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "S(%s)" % (self.p,)

    def __round__(self, n=None):
        if n is None:
            return s_round(self)
        raise Unsupported("round to digits")

    def __iter__(self):
        raise TypeError("iteration over a 0-d array")

    # numpy-scalar-like interface
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return Dtype("i" if self.is_int() else (
            "f" if self.p.is_real() else "c"))

    @property
    def real(self):
        return S(ring.re(self.fin()))

    @property
    def imag(self):
        return S(ring.im(self.fin()))

    def conjugate(self):
        return S(ring.conj(self.fin()))
    conj = conjugate

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, t):
        return self

    def sum(self, axis=None):
        return self

    def is_integer(self):
        return B(TRUE) if self.p.is_integer() else B(
            eq0(self.p - ring.floor(self.p)))


def to_S(x):
    if isinstance(x, S):
        return x
    if isinstance(x, B):
        return x._s()
    if isinstance(x, bool):
        return S(ONE if x else ZERO, isint=True)
    if isinstance(x, int):
        return S(P(x), isint=True)
    if isinstance(x, float):
        if x != x:
            return S(ZERO, nanc=TRUE)
        if x == INF:
            return S(ONE, infc=TRUE)
        if x == -INF:
            raise Unsupported("-inf")
        return S(P(x), isint=False)
    if isinstance(x, (complex, Fraction)):
        return S(P(x), isint=False)
    if isinstance(x, SymArr) and x.ndim == 0:
        return x.elem(())
    raise Unsupported("scalar from %r" % type(x))


def _fo(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return f_or(a, b)


def s_add(a, b):
    if a.nanc is not None or b.nanc is not None:
        n = _fo(a.nanc, b.nanc)
        r = s_add(S(a.p, a.infc), S(b.p, b.infc))
        r.nanc = n
        return r
    if a.infc is None and b.infc is None:
        r = a.p + b.p
        ii = a.isint and b.isint
        return S(r, isint=True if ii else (False if (
            a.isint is False or b.isint is False) else None))
    if a.infc is not None and b.infc is not None:
        return S(a.p + b.p, f_or(a.infc, b.infc))
    return S(a.p + b.p, a.infc if a.infc is not None else b.infc)


def s_neg(a):
    if a.infc is not None:
        return S(-a.fin())
    return S(-a.p, isint=a.isint, nanc=a.nanc)


def known_pos(p):
    if p.is_const():
        return p.const() > 0
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c > 0 and all(get_atom(x).pos for x, e in m):
            return True
    return form.entails(path().facts, lt0(-p), 1500) is True


def s_mul(a, b):
    if a.nanc is not None or b.nanc is not None:
        r = s_mul(S(a.p, a.infc), S(b.p, b.infc))
        r.nanc = _fo(a.nanc, b.nanc)
        return r
    if a.infc is None and b.infc is None:
        ii = a.isint and b.isint
        return S(a.p * b.p, isint=True if ii else (False if (
            a.isint is False or b.isint is False) else None))
    if a.infc is not None and b.infc is not None:
        if a.infc is b.infc and known_pos(a.p) and known_pos(b.p):
            return S(a.p * b.p, a.infc)
        if a is b or a.p == b.p and a.infc is b.infc:
            return S(a.p * b.p, a.infc)
        raise Unsupported("product of infinities")
    if a.infc is None:
        a, b = b, a
    # a infinite on infc; b must be positive there
    if b.p.is_real() and known_pos(b.p):
        return S(a.p * b.p, a.infc)
    return S(a.fin() * b.p)


def s_div(a, b):
    if a.nanc is not None or b.nanc is not None:
        r = s_div(S(a.p, a.infc), S(b.p, b.infc))
        r.nanc = _fo(a.nanc, b.nanc)
        return r
    if a.infc is not None:
        if b.infc is None and known_pos(b.p):
            return S(a.p * inv(b.p), a.infc)
        if b.infc is a.infc:
            # inf/inf = nan there
            return S(a.p * inv(b.p), nanc=a.infc)
        return s_div(S(a.fin()), b)
    if b.infc is not None:
        g = ring.indicator(f_not(b.infc))
        if g.is_zero():
            return S(ZERO, isint=False)
        return S(a.p * inv(b.p) * g, isint=False)
    if b.p.is_const() and b.p.const() == 0:
        if a.p.is_const() and a.p.const() > 0:
            return S(ONE, infc=TRUE)
    return S(a.p * inv(b.p), isint=False)


def s_fdiv(a, b):
    x, y = a.fin(), b.fin()
    if x.is_integer() and y.is_integer():
        return S(ring.fdiv(x, y), isint=bool(a.is_int() and b.is_int()))
    return S(ring.floor(x * inv(y)), isint=False)


def s_mod(a, b):
    x, y = a.fin(), b.fin()
    if x.is_integer() and y.is_integer():
        return S(x - y * ring.fdiv(x, y),
                 isint=bool(a.is_int() and b.is_int()))
    return S(x - y * ring.floor(x * inv(y)), isint=False)


def s_pow(a, e):
    if isinstance(e, B):
        e = e._s()
    if isinstance(e, S):
        if not e.p.is_const():
            if a.p.is_const() and a.p.const() == 10 or True:
                return S(ring.app("pow", [a.fin(), e.fin()]))
        e = Fraction(e.p.const())
    elif isinstance(e, (int, Fraction)):
        e = Fraction(e)
    elif isinstance(e, float):
        e = ring.frac(e)
    else:
        return NotImplemented
    if a.infc is not None and e > 0 and e.denominator == 1:
        return S(a.p ** int(e), a.infc)
    if a.nanc is not None and e.denominator == 1:
        return S(a.p ** int(e), nanc=a.nanc)
    p = a.fin()
    if e.denominator == 1:
        n = int(e)
        return S(p ** n, isint=(a.isint if n >= 0 else False))
    if e.denominator == 2:
        return S(ring.sqrt(p) ** int(e * 2), isint=False)
    if e.denominator == 3:
        return S(ring.cbrt(p) ** int(e * 3), isint=False)
    return S(ring.app("pow", [p, P(e)], nonneg=True))


def s_abs(a):
    if a.infc is not None:
        return S(ring.cabs(a.p), a.infc)
    if a.nanc is not None:
        return S(ring.cabs(a.p), nanc=a.nanc)
    return S(ring.cabs(a.p), isint=a.isint)


def s_sqrt(a):
    return S(ring.sqrt(a.p), a.infc, isint=False, nanc=a.nanc)


def s_round(a):
    # round half to even; modelled as an integer within 1/2
    p = a.fin()
    if p.is_integer():
        return S(p, isint=True)
    if p.is_const():
        return S(P(round(Fraction(p.const()))), isint=True)
    r = ring.app("round", [p], integer=True)
    for m in r.t:
        for x, e in m:
            at = get_atom(x)
            if at.kind == "app" and at.args[0] == "round":
                y = mono1(at)
                path().add(f_and(le0(y - at.args[2] - P(Fraction(1, 2))),
                                 le0(at.args[2] - y - P(Fraction(1, 2)))))
    return S(r, isint=True)


def s_trunc(a):
    """int(): truncation towards zero."""
    p = a.fin()
    if p.is_integer():
        return S(p, isint=True)
    if p.is_const():
        return S(P(int(Fraction(p.const()))), isint=True)
    # exact simplification: integer-valued quotient
    fl = ring.floor(p)
    c = lt0(p)
    if c is not TRUE and c is not FALSE and form.entails(
            path().facts, f_not(c), 1000) is True:
        return S(fl, isint=True)
    up = -ring.floor(-p)
    return S(ring.indicator(c) * up + (ONE - ring.indicator(c)) * fl,
             isint=True)


def s_cmp(a, o, op):
    if isinstance(o, SymArr):
        return NotImplemented
    if isinstance(o, float) and o == -INF:
        g = TRUE if a.nanc is None else f_not(a.nanc)
        return B(g if op in ("gt", "ge") else FALSE)
    if isinstance(o, (int, float, complex, Fraction, S, B, bool)):
        b = to_S(o)
    else:
        if op == "eq":
            return False
        return NotImplemented
    guard = TRUE
    for n in (a.nanc, b.nanc):
        if n is not None:
            guard = f_and(guard, f_not(n))
    if a.infc is not None or b.infc is not None:
        ai = a.infc if a.infc is not None else FALSE
        bi = b.infc if b.infc is not None else FALSE
        fin_ = f_and(f_not(ai), f_not(bi))
        if op == "lt":
            f = f_or(f_and(fin_, lt0(a.p - b.p)), f_and(bi, f_not(ai)))
        elif op == "le":
            f = f_or(f_and(fin_, le0(a.p - b.p)), bi)
        elif op == "gt":
            f = f_or(f_and(fin_, lt0(b.p - a.p)), f_and(ai, f_not(bi)))
        elif op == "ge":
            f = f_or(f_and(fin_, le0(b.p - a.p)), ai)
        else:
            f = f_or(f_and(fin_, eq0(a.p - b.p)), f_and(ai, bi))
        return B(f_and(guard, f))
    if op == "eq":
        f = eq0(a.p - b.p)
    elif op == "lt":
        f = lt0(a.p - b.p)
    elif op == "le":
        f = le0(a.p - b.p)
    elif op == "gt":
        f = lt0(b.p - a.p)
    else:
        f = le0(b.p - a.p)
    return B(f_and(guard, f))


def ite(c, a, b):
    """element-wise conditional on Form c."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return B(f_ite(c, form_of(a), form_of(b)))
    a, b = to_S(a), to_S(b)
    g = ring.indicator(c)
    infc = None
    if a.infc is not None or b.infc is not None:
        infc = f_ite(c, a.infc or FALSE, b.infc or FALSE)
    nanc = None
    if a.nanc is not None or b.nanc is not None:
        nanc = f_ite(c, a.nanc or FALSE, b.nanc or FALSE)
    if a.infc is TRUE:
        p = b.p
    elif b.infc is TRUE:
        p = a.p
    elif a.nanc is TRUE:
        p = b.p
    elif b.nanc is TRUE:
        p = a.p
    else:
        p = g * a.p + (ONE - g) * b.p
    return S(p, infc, isint=True if (a.isint and b.isint) else None,
             nanc=nanc)


class Dtype:
    def __init__(self, k):
        self.kind = k
        self.char = {"f": "d", "c": "D", "i": "l", "b": "?"}.get(k, k)
        self.type = k

    def __eq__(self, o):
        return dtype_kind(o) == self.kind

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __call__(self, x=0):
        return x


def dtype_kind(d):
    if d is None:
        return "f"
    if isinstance(d, Dtype):
        return d.kind
    nm = getattr(d, "__name__", None) or str(d)
    nm = nm.lower()
    if "complex" in nm:
        return "c"
    if "bool" in nm:
        return "b"
    if "int" in nm:
        return "i"
    if "float" in nm or nm in ("d", "f"):
        return "f"
    if nm in ("f", "c", "i", "b"):
        return nm
    if "object" in nm:
        return "o"
    raise Unsupported("dtype %r" % (d,))


# ---------------------------------------------------------------- arrays
class Buf:
    _n = [0]

    def __init__(self, fn, ndim, name=None, tracked=False):
        Buf._n[0] += 1
        self.id = Buf._n[0]
        self.fn = fn
        self.ndim = ndim
        self.name = name
        self.tracked = tracked
        self.orig = fn
        self.nwrites = 0

    def write(self, fn):
        self.fn = Hooked(fn) if GENERIC else fn
        self.nwrites += 1
        g = GENERIC[-1] if GENERIC else None
        if g is not None:
            g.note_write(self)


class Hooked:
    """content of a buffer written in a symbolic loop; HOOKS says what it is
    after the last iteration, while arrays made there are evaluated"""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, idx):
        r = HOOKS.get(id(self))
        return self.fn(idx) if r is None else r(idx)


GENERIC = []
HOOKS = {}


class Dim:
    """One axis: plain range [0,n) or a filtered one (members of [0,base)
    with cond); parameter tokens of a filtered axis are base indices."""
    __slots__ = ("n", "base", "cond", "ident", "cuts")

    def __init__(self, n, base=None, cond=None, ident=None, cuts=None):
        self.cuts = cuts            # boundaries of concatenated pieces
        self.n = n
        self.base = base
        self.cond = cond
        self.ident = ident

    @property
    def filtered(self):
        return self.cond is not None

    def rng(self):
        return self.base if self.filtered else self.n

    def guard(self, i):
        f = f_and(le0(-i), lt0(i - self.rng()))
        if self.filtered:
            f = f_and(f, self.cond(i))
        return f


def canon_var():
    return ring.bound_var(0)


def mk_filter_dim(base, condfn):
    v = canon_var()
    ident = (base, condfn(v))
    if ident[1] is TRUE:
        return Dim(base)
    k = ring.fresh("m", integer=True, nonneg=True)
    n = ring.bigsum(base, k, ring.indicator(condfn(k)))
    d = Dim(n, base, condfn, ident)
    if Path.cur is not None and not n.is_const():
        try:
            Path.cur.counts[form.eq0(n).id] = d
            Path.cur.counts[f_not(form.lt0(-n)).id] = d
            Path.cur.counts[f_not(form.lt0(P(0) - n)).id] = d
            Path.cur.counts[form.lt0(n - 1).id] = d
        except Unsupported:
            pass
    return d


def same_dim(a, b):
    if a.filtered != b.filtered:
        return False
    if a.filtered:
        if a.ident == b.ident:
            return True
        if a.base != b.base:
            return False
        # semantic equality of the masks
        k = fresh_index(a.base)
        fa, fb = a.cond(k), b.cond(k)
        if fa is fb:
            return True
        return form.entails(path().facts, form.f_iff(fa, fb), 2000) is True
    if a.n == b.n:
        return True
    return form.entails(path().facts, eq0(a.n - b.n), 2000) is True


def fresh_index(n, prefix="k"):
    k = ring.fresh(prefix, integer=True, nonneg=True)
    form.add_varfact(k, le0(-k))
    form.add_varfact(k, lt0(k - n))
    return k


def is_one(n):
    return n.is_const() and n.const() == 1


def dimlen(x):
    """length argument -> Poly"""
    if isinstance(x, S):
        return x.fin()
    if isinstance(x, bool):
        raise Unsupported("bool shape")
    if isinstance(x, int):
        return P(x)
    if isinstance(x, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    raise Unsupported("shape entry %r" % type(x))


def pylen(n):
    if n.is_const():
        return int(n.const())
    return S(n, isint=True)


class Pos:
    """Position of a parameter token inside a filtered axis (argmin of a
    compressed array)."""
    __slots__ = ("dim", "tok")
    _is_vc = True

    def __init__(self, dim, tok):
        self.dim = dim
        self.tok = tok

    def _u(self, *a):
        raise Unsupported("arithmetic on a position in a compressed array")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _u
    __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = _u
    __index__ = __int__ = __float__ = _u


class SymArr:
    _is_vc = True
    __array_priority__ = 1000

    def __init__(self, buf, dims, imap=None, inv=None, dtype="f",
                 base=None, contiguous=True):
        self.buf = buf
        self.dims = tuple(dims)
        self.imap = imap      # view idx tuple -> buffer idx tuple
        self.inv = inv        # buffer idx tuple -> (Form, view idx tuple)
        self._dt = dtype
        self.base = base

    # -- basic ---------------------------------------------------------
    @staticmethod
    def new(dims, fn, dtype="f"):
        dims = tuple(d if isinstance(d, Dim) else Dim(P(d)) for d in dims)
        memo = {}

        def mfn(idx):
            k = (idx, Path.cur.epoch if Path.cur else 0)
            r = memo.get(k)
            if r is None:
                r = fn(idx)
                memo[k] = r
            return r
        return SymArr(Buf(mfn, len(dims)), dims, dtype=dtype)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def shape(self):
        return tuple(pylen(d.n) for d in self.dims)

    @shape.setter
    def shape(self, s):
        raise Unsupported("assigning shape")

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        return Dtype(self._dt)

    def elem(self, idx):
        """element at view index (tuple of Poly parameter tokens)."""
        idx = tuple(idx)
        b = self.imap(idx) if self.imap else idx
        path().dry += 1
        try:
            return self.buf.fn(b)
        finally:
            path().dry -= 1

    def snap(self):
        """immutable element function of the current contents"""
        fn, imap = self.buf.fn, self.imap
        if imap is None:
            return fn
        return lambda idx: fn(imap(idx))

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        n = self.dims[0].n
        if n.is_const():
            return int(n.const())
        raise Unsupported("len() of a symbolic array outside the shim")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.elem(()))
        if all(is_one(d.n) for d in self.dims):
            return bool(self.elem(tuple(ZERO for _ in self.dims)))
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self.dims[0].n
        if n.is_const() and not self.dims[0].filtered:
            for i in range(int(n.const())):
                yield self[i]
            return
        raise Unsupported("iteration over a symbolic-length array")

    def __contains__(self, x):
        raise Unsupported("in array")

    __hash__ = object.__hash__

    def __repr__(self):
        return "SymArr%s" % (tuple(str(d.n) for d in self.dims),)

    def __format__(self, s):
        return "<arr>"

    def __float__(self):
        return float(self.elem(tuple(ZERO for _ in self.dims)))

    def __index__(self):
        if self.ndim == 0:
            return self.elem(()).__index__()
        raise TypeError("only integer scalar arrays can be converted to a "
                        "scalar index")

    # -- elementwise operators ------------------------------------------
    def _bin(self, o, op, dt=None):
        return elementwise(op, [self, o], dt)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return elementwise(lambda a, b: a + b, [o, self])

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return elementwise(lambda a, b: a - b, [o, self])

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return elementwise(lambda a, b: a * b, [o, self])

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: s_div(to_S(a), to_S(b)))

    def __rtruediv__(self, o):
        return elementwise(lambda a, b: s_div(to_S(a), to_S(b)), [o, self])

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: to_S(a) // b)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: to_S(a) % b)

    def __rmod__(self, o):
        return elementwise(lambda a, b: to_S(a) % b, [o, self])

    def __pow__(self, o):
        return self._bin(o, lambda a, b: s_pow(to_S(a), b))

    def __rpow__(self, o):
        return elementwise(lambda a, b: s_pow(to_S(a), b), [o, self])

    def __neg__(self):
        return elementwise(lambda a: -to_S(a), [self])

    def __pos__(self):
        return self

    def __abs__(self):
        return elementwise(lambda a: s_abs(to_S(a)), [self])

    def __invert__(self):
        return elementwise(lambda a: ~a, [self], "b")

    def __and__(self, o):
        return self._bin(o, lambda a, b: _b(a) & _b(b), "b")
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: _b(a) | _b(b), "b")
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: _b(a) ^ _b(b), "b")

    def __lt__(self, o):
        return self._bin(o, lambda a, b: to_S(a) < b, "b")

    def __le__(self, o):
        return self._bin(o, lambda a, b: to_S(a) <= b, "b")

    def __gt__(self, o):
        return self._bin(o, lambda a, b: to_S(a) > b, "b")

    def __ge__(self, o):
        return self._bin(o, lambda a, b: to_S(a) >= b, "b")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, lambda a, b: _eq(a, b), "b")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, lambda a, b: ~_eq(a, b), "b")

    def __matmul__(self, o):
        from . import npshim
        return npshim.matmul(self, o)

    def __rmatmul__(self, o):
        from . import npshim
        return npshim.matmul(o, self)

    # -- in-place operators ---------------------------------------------
    def _iop(self, o, op):
        r = elementwise(op, [self, o])
        self._assign_all(r)
        return self

    def __iadd__(self, o):
        return self._iop(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._iop(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._iop(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        if self._dt in ("i", "b"):
            raise Unsupported("in-place true division of an int array")
        return self._iop(o, lambda a, b: s_div(to_S(a), to_S(b)))

    def __iand__(self, o):
        return self._iop(o, lambda a, b: _b(a) & _b(b))

    def __ior__(self, o):
        return self._iop(o, lambda a, b: _b(a) | _b(b))

    def __ipow__(self, o):
        return self._iop(o, lambda a, b: s_pow(to_S(a), b))

    def _assign_all(self, r):
        """self[...] = r"""
        self[tuple(slice(None) for _ in self.dims)] = r

    # -- indexing --------------------------------------------------------
    def __getitem__(self, key):
        from . import index
        return index.getitem(self, key)

    def __setitem__(self, key, val):
        from . import index
        index.setitem(self, key, val)

    # -- methods ---------------------------------------------------------
    def _np(self):
        from . import npshim
        return npshim.NP

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in _METHODS:
            np = self._np()
            f = getattr(np, name)

            def call(*a, **k):
                return f(self, *a, **k)
            return call
        if name in ("real", "imag"):
            return getattr(self._np(), name)(self)
        if name == "T":
            return self._np().transpose(self)
        raise AttributeError("'numpy.ndarray' object has no attribute %r"
                             % name) if not _known_np_attr(name) \
            else Unsupported("ndarray.%s" % name)

    def conjugate(self):
        return elementwise(lambda a: to_S(a).conjugate(), [self])
    conj = conjugate

    def copy(self, order=None):
        fn = self.snap()
        return SymArr.new(self.dims, fn, self._dt)

    def astype(self, t, copy=True):
        from . import npshim
        return npshim.astype(self, t)

    def tolist(self):
        return [x for x in self]

    def item(self, *a):
        if self.ndim == 0:
            return self.elem(())
        if all(is_one(d.n) for d in self.dims):
            return self.elem(tuple(ZERO for _ in self.dims))
        raise Unsupported("item()")

    def fill(self, v):
        self._assign_all(v)

    def flatten(self):
        return self._np().ravel(self).copy()

    def sort(self, axis=-1, kind=None):
        self[...] = self._np().sort(self, axis=axis)


_METHODS = {"sum", "mean", "std", "var", "min", "max", "argmin", "argmax",
            "any", "all", "dot", "reshape", "transpose", "ravel", "squeeze",
            "cumsum", "prod", "argsort", "repeat", "round", "clip",
            "nonzero", "diagonal", "swapaxes", "trace"}


def _known_np_attr(name):
    return name in {"T", "flat", "view", "sort", "searchsorted", "ptp",
                    "take", "put", "resize", "data", "strides", "itemsize",
                    "nbytes", "flags", "byteswap", "choose", "compress",
                    "cumprod", "dump", "dumps", "getfield", "itemset",
                    "partition", "setflags", "tobytes", "tofile", "base",
                    "argpartition", "newbyteorder", "ctypes", "tostring"}


def _b(a):
    if isinstance(a, B):
        return a
    if isinstance(a, S):
        p = a.fin()     # bitwise on 0/1 integers only
        if form.entails(path().facts, eq0(p * p - p), 800) is not True:
            raise Unsupported("bitwise operation on numbers")
    return B(form_of(a))


def _eq(a, b):
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return B(form.f_iff(form_of(a), form_of(b)))
    return to_S(a) == to_S(b)


def is_arr(x):
    return isinstance(x, SymArr)


def as_arr(x):
    """array view of a scalar / nested list / array."""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, range):        # (affine in the index)
        return SymArr.new((Dim(P(len(x))),), lambda i: S(
            P(x.start) + P(x.step) * i[0], isint=True), "i")
    if hasattr(x, "to_arr"):        # symbolic range
        return x.to_arr()
    if isinstance(x, (list, tuple)):
        from . import npshim
        return npshim.NP.array(x)
    if isinstance(x, Pos):
        raise Unsupported("position token as array")
    v = x
    if not isinstance(v, (S, B)):
        v = B(f_bool(v)) if isinstance(v, bool) else to_S(v)
    dt = "b" if isinstance(v, B) else ("i" if v.is_int() else (
        "f" if v.p.is_real() else "c"))
    return SymArr.new((), lambda idx: v, dt)


def promote(kinds):
    for k in ("o", "c", "f", "i", "b"):
        if k in kinds:
            return k
    return "f"


def broadcast_dims(arrs):
    nd = max(a.ndim for a in arrs)
    out = []
    for ax in range(nd):
        d = None
        for a in arrs:
            j = ax - (nd - a.ndim)
            if j < 0:
                continue
            e = a.dims[j]
            if not e.filtered and is_one(e.n):
                if d is None:
                    d = e
                continue
            if d is None or (not d.filtered and is_one(d.n)):
                d = e
            elif not same_dim(d, e):
                if d.filtered or e.filtered:
                    raise Unsupported("broadcast of compressed arrays")
                c = path().decide(eq0(d.n - e.n))
                if not c:
                    if path().decide(eq0(e.n - 1)):
                        continue
                    if path().decide(eq0(d.n - 1)):
                        d = e
                        continue
                    raise ValueError("operands could not be broadcast "
                                     "together")
        out.append(d)
    return out


def bidx(a, idx, nd):
    """index of a for broadcast index idx"""
    off = nd - a.ndim
    return tuple(ZERO if (not a.dims[j].filtered and is_one(a.dims[j].n))
                 else idx[off + j] for j in range(a.ndim))


def elementwise(op, args, dt=None):
    arrs = []
    for x in args:
        if isinstance(x, SymArr):
            arrs.append(x)
        elif isinstance(x, (list, tuple)):
            arrs.append(as_arr(x))
        elif isinstance(x, (S, B, int, float, complex, bool, Fraction)):
            arrs.append(x)
        elif x is None or isinstance(x, str):
            raise TypeError("unsupported operand type(s)")
        else:
            raise Unsupported("operand %r" % type(x))
    real = [a for a in arrs if isinstance(a, SymArr)]
    if not real:
        return op(*arrs)
    dims = broadcast_dims(real)
    nd = len(dims)
    snaps = [(a, a.snap()) if isinstance(a, SymArr) else (None, a)
             for a in arrs]

    def fn(idx):
        vals = []
        for a, f in snaps:
            if a is None:
                vals.append(f)
            else:
                vals.append(f(bidx(a, idx, nd)))
        return op(*vals)
    if dt is None:
        ks = set()
        for x in arrs:
            if isinstance(x, SymArr):
                ks.add(x._dt)
            elif isinstance(x, (bool, B)):
                ks.add("b")
            elif isinstance(x, S):
                ks.add("c" if x.cplx or not x.p.is_real() else
                       "i" if x.is_int() else "f")
            elif isinstance(x, int):
                ks.add("i")
            elif isinstance(x, complex):
                ks.add("c")
            else:
                ks.add("f")
        dt = promote(ks)
    if nd == 0:
        return fn(())
    return SymArr.new(dims, fn, dt)
