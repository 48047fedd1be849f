"""Canonical commutative algebra used by the verification-condition back end.

A Poly is a finite sum of  coefficient * monomial,  coefficient rational,
monomial a product of atom**int.  Atoms are interned; they include variables,
array elements, finite sums with a canonical bound variable, unit phases,
real exponentials, square roots, reciprocals of polynomials and 0/1 indicators
of formulas.  Two expressions that are equal by ring axioms, linearity of sums,
e^{i(a+b)} = e^{ia} e^{ib}, e^{2 pi i n} = 1, sqrt(x)^2 = x, I(c)^2 = I(c)
have the same normal form.
"""
import math
from fractions import Fraction
from math import isqrt


class Unsupported(BaseException):
    """The construct is outside the supported subset (never a verdict)."""


_atoms = []
_intern = {}


class Atom:
    __slots__ = ("id", "kind", "args", "real", "integer", "pos", "nonneg",
                 "deps", "depth", "inds", "_conj")

    def __repr__(self):
        return "<%s>" % show_atom(self)


def mk_atom(kind, args, real=True, integer=False, pos=False, nonneg=False,
            deps=frozenset(), depth=0, inds=frozenset()):
    key = (kind,) + args
    a = _intern.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind = kind
        a.args = args
        a.real = real
        a.integer = integer
        a.pos = pos
        a.nonneg = nonneg or pos
        a.deps = deps
        a.depth = depth
        a.inds = inds
        a._conj = None
        _atoms.append(a)
        _intern[key] = a
    return a


SPECIAL = {"i", "E", "Exp", "ind", "Sqrt", "Abs", "cbrt"}


class Poly:
    __slots__ = ("t", "_key", "_h", "_deps", "_depth")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._h = None
        self._deps = None
        self._depth = None

    # -- identity -------------------------------------------------------
    @property
    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Poly):
            return NotImplemented
        return self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    # -- queries --------------------------------------------------------
    def is_zero(self):
        return not self.t

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0) if self.t else 0

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    @property
    def deps(self):
        if self._deps is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= _atoms[a].deps
            self._deps = frozenset(s)
        return self._deps

    @property
    def depth(self):
        if self._depth is None:
            self._depth = max((_atoms[a].depth for m in self.t for a, _ in m),
                              default=0)
        return self._depth

    def is_integer(self):
        for m, c in self.t.items():
            if isinstance(c, Fraction) and c.denominator != 1:
                return False
            for a, e in m:
                if e < 0 or not _atoms[a].integer:
                    return False
        return True

    def is_real(self):
        for m in self.t:
            for a, _ in m:
                if not _atoms[a].real:
                    return conj(self) == self
        return True

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v == 0:
                    del t[m]
                else:
                    t[m] = _n(v)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: _n(v * c) for m, v in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1 and () in o.t:
            return self.scale(o.t[()])
        if len(self.t) == 1 and () in self.t:
            return o.scale(self.t[()])
        if len(self.t) * len(o.t) > LIMIT[0]:
            raise Unsupported("polynomial product too large (%d x %d)"
                              % (len(self.t), len(o.t)))
        acc = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                c = c1 * c2
                if type(r) is tuple:
                    v = acc.get(r)
                    acc[r] = c if v is None else v + c
                else:
                    for m, cc in r.t.items():
                        v = acc.get(m)
                        acc[m] = c * cc if v is None else v + c * cc
        return Poly({m: _n(c) for m, c in acc.items() if c != 0})

    __rmul__ = __mul__

    def __pow__(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return inv(self) ** (-n)
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)


LIMIT = [400000]


def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): _n(x)}) if x else ZERO
    if isinstance(x, float):
        return P(frac(x))
    if isinstance(x, complex):
        return P(frac(x.real)) + P(frac(x.imag)) * I
    raise Unsupported("cannot make a term of %r" % (type(x),))


def frac(x):
    """Decimal reading of a float literal (floats are treated as reals)."""
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant")
    return Fraction(repr(x))


def mono1(a, e=1):
    return Poly({((a.id, e),): 1})


_I_ATOM = mk_atom("i", (), real=False)
I = mono1(_I_ATOM)
_I_ID = _I_ATOM.id
_PI_ATOM = mk_atom("pi", (), pos=True)
PI = mono1(_PI_ATOM)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    special = False
    for a, e in m2:
        if a in d:
            n = d[a] + e
            if n == 0:
                del d[a]
            else:
                d[a] = n
        else:
            d[a] = e
    nE = nX = 0
    for a, e in d.items():
        k = _atoms[a].kind
        if k in SPECIAL:
            if k == "E":
                nE += 1
                if e != 1:
                    special = True
            elif k == "Exp":
                nX += 1
                if e != 1:
                    special = True
            elif e != 1:
                special = True
    if nE > 1 or nX > 1 or special:
        return _norm_mono(d)
    return tuple(sorted(d.items()))


def _norm_mono(d):
    """Normal form of a product that contains special atoms -> Poly."""
    out = {}
    coef = 1
    turns = None
    expo = None
    extra = None
    for a, e in d.items():
        at = _atoms[a]
        k = at.kind
        if k == "i":
            e %= 4
            if e in (2, 3):
                coef = -coef
            if e in (1, 3):
                out[a] = 1
        elif k == "E":
            t = at.args[0].scale(e)
            turns = t if turns is None else turns + t
        elif k == "Exp":
            t = at.args[0].scale(e)
            expo = t if expo is None else expo + t
        elif k == "ind":
            if e < 0:
                raise Unsupported("division by an indicator")
            out[a] = 1
        elif k == "Sqrt":
            q, r = divmod(e, 2)
            if q:
                f = at.args[0] ** q
                extra = f if extra is None else extra * f
            if r:
                out[a] = 1
        elif k == "Abs":
            q, r = divmod(e, 2)
            if q:
                f = (at.args[0] * at.args[0]) ** q
                extra = f if extra is None else extra * f
            if r:
                out[a] = 1
        elif k == "cbrt":
            q, r = divmod(e, 3)
            if q:
                f = at.args[0] ** q
                extra = f if extra is None else extra * f
            if r:
                out[a] = r
        else:
            out[a] = e
    p = Poly({tuple(sorted(out.items())): coef})
    if turns is not None:
        p = _mul_plain(p, phase(turns))
    if expo is not None:
        p = _mul_plain(p, rexp(expo))
    if extra is not None:
        p = p * extra
    return p


def _mul_plain(p, q):
    # q is a single-term poly (a phase or exponential) or ONE / -ONE
    return p * q


# ---------------------------------------------------------------- atoms
def var(name, real=True, integer=False, pos=False, nonneg=False):
    a = _intern.get(("var", name))
    if a is None:
        a = mk_atom("var", (name,), real=real, integer=integer, pos=pos,
                    nonneg=nonneg)
        a.deps = frozenset([a.id])
    return mono1(a)


_fresh = [0]


def fresh(prefix="t", **kw):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), **kw)


def atom_of(p):
    (m,) = p.t
    ((a, e),) = m
    assert e == 1 and p.t[m] == 1
    return _atoms[a]


def _args_deps(args):
    s = set()
    for a in args:
        d = getattr(a, "deps", None)
        if d:
            s |= d
    return frozenset(s)


def _args_depth(args):
    return max((getattr(a, "depth", 0) for a in args), default=0)


def ind_atoms(p):
    s = set()
    for m in p.t:
        for a, _ in m:
            if _atoms[a].kind == "ind":
                s.add(a)
    return s


def lift(args, f):
    """Apply the total function f to args, pushing indicators outside:
    f(I a + (1-I) b) = I f(a) + (1-I) f(b)."""
    for idx, a in enumerate(args):
        if isinstance(a, Poly):
            s = ind_atoms(a)
            if s:
                i = min(s)
                ip = mono1(_atoms[i])
                out = ZERO
                for val in (1, 0):
                    nargs = [set_ind(x, i, val) if isinstance(x, Poly) else x
                             for x in args]
                    r = lift(nargs, f)
                    out = out + (ip * r if val else (ONE - ip) * r)
                return out
    return f(*args)


def set_ind(p, i, val):
    """Replace the top-level indicator atom i by 0/1."""
    t = {}
    for m, c in p.t.items():
        hit = False
        for a, e in m:
            if a == i:
                hit = True
                break
        if hit:
            if val == 0:
                continue
            m = tuple(x for x in m if x[0] != i)
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v == 0:
                del t[m]
            else:
                t[m] = _n(v)
    return Poly(t)


def _reflected(k, n):
    """w mod n if k is (-w) mod n and -w has a negative leading term"""
    for m in k.t:
        for i, e in m:
            at = _atoms[i]
            if at.kind == "fdiv" and at.args[1] == n and \
                    k == at.args[0] - n * mono1(at):
                q = at.args[0]
                lead = max((x for x in q.t if x), default=None)
                if lead is None or q.t[lead] > 0:
                    return None
                q = -q
                return q - n * fdiv(q, n)
    return None


def app(name, args, real=True, integer=False, pos=False, nonneg=False,
        conjd=False):
    def mk(*a):
        a = tuple(a)
        if name == "fft" and not a[2].t:
            # zero frequency: the plain sum
            j = fresh("b", integer=True)
            r = bigsum(a[0], j, a[1].at(j))
            return conj(r) if conjd else r
        if name == "fft":
            w = _reflected(a[2], a[0])
            if w is not None and a[1].body.is_real():
                # transform of real data: X(-w mod n) = conj X(w mod n)
                return app(name, [a[0], a[1], w], real=real,
                           conjd=not conjd)
        at = mk_atom("app", (name, conjd) + a, real=real, integer=integer,
                     pos=pos, nonneg=nonneg, deps=_args_deps(a),
                     depth=_args_depth(a))
        return mono1(at)
    return lift(list(args), mk)


NAME_MIN = [60]


def name(p):
    """opaque name of a long real expression (the definition is unfolded
    when a proof needs it)"""
    def mk(p):
        if len(p.t) < NAME_MIN[0] or not p.is_real():
            return p
        return mono1(mk_atom("Def", (p,), real=True, deps=p.deps,
                             depth=p.depth))
    if len(p.t) < NAME_MIN[0]:
        return p
    return lift([p], mk)


def has_defs(p):
    return any(_atoms[a].kind == "Def" or _atoms[a].kind in _NEST and
               any(isinstance(x, Poly) and has_defs(x)
                   for x in _atoms[a].args)
               for m in p.t for a, _ in m)


_NEST = ("Inv", "Sqrt", "Abs", "Exp", "E", "cbrt", "Sum")


def expand_defs(p, deep=True):
    """replace names by their definitions"""
    out = ZERO
    keep = {}
    for m, c in p.t.items():
        if not any(_atoms[a].kind == "Def" or _atoms[a].kind in _NEST and
                   any(isinstance(x, Poly) and has_defs(x)
                       for x in _atoms[a].args) for a, _ in m):
            keep[m] = c
            continue
        r = P(c)
        for a, e in m:
            at = _atoms[a]
            k = at.kind
            if k == "Def":
                q = expand_defs(at.args[0])
                r = r * (q ** e if e > 0 else inv(q) ** (-e))
            elif k in _NEST and any(isinstance(x, Poly) and has_defs(x)
                                    for x in at.args):
                if k == "Sum":
                    hi, body, bv = at.args
                    q = bigsum(hi, mono1(_atoms[bv]), expand_defs(body))
                else:
                    q = {"Inv": inv, "Sqrt": sqrt, "Abs": absr, "Exp": rexp,
                         "E": phase, "cbrt": cbrt}[k](
                             expand_defs(at.args[0]))
                r = r * (q ** e if e > 0 else inv(q) ** (-e))
            else:
                r = r * _atom_pow(at, e)
        out = out + r
    return out + Poly(keep)


def indicator(form):
    if form.kind == "true":
        return ONE
    if form.kind == "false":
        return ZERO
    if form.kind == "not":
        return ONE - indicator(form.args[0])
    if form.kind == "and":
        r = ONE
        for x in form.args:
            r = r * indicator(x)
        return r
    if form.kind == "or":
        r = ONE
        for x in form.args:
            r = r * (ONE - indicator(x))
        return ONE - r
    a = mk_atom("ind", (form,), integer=True, nonneg=True, deps=form.deps,
                depth=form.depth)
    return mono1(a)


def _drop_int(t):
    """turns modulo 1: drop integer-valued monomials."""
    out = {}
    for m, c in t.t.items():
        ok = True
        for a, e in m:
            if e < 0 or not _atoms[a].integer:
                ok = False
                break
        if ok:
            if isinstance(c, Fraction):
                c = c - (c.numerator // c.denominator)
                if c == 0:
                    continue
            else:
                continue
        out[m] = c
    return Poly(out)


def phase(turns):
    """e^{2 pi i turns} for real turns."""
    def mk(t):
        t = _drop_int(t)
        # pull out a constant quarter-turn
        c = t.t.get(())
        f = ONE
        if c is not None:
            q = c * 4
            if isinstance(q, int) or (isinstance(q, Fraction)
                                      and q.denominator == 1):
                q = int(q) % 4
                f = (ONE, I, -ONE, -I)[q]
                t = t - P(c)
        if t.is_zero():
            return f
        a = mk_atom("E", (t,), real=False, deps=t.deps, depth=t.depth)
        return f * mono1(a)
    return lift([turns], mk)


def rexp(p):
    def mk(p):
        if p.is_zero():
            return ONE
        a = mk_atom("Exp", (p,), pos=True, deps=p.deps, depth=p.depth)
        return mono1(a)
    return lift([p], mk)


def re(p):
    if p.is_real():
        return p
    return (p + conj(p)).scale(Fraction(1, 2))


def im(p):
    if p.is_real():
        return ZERO
    return (p - conj(p)) * I.scale(Fraction(-1, 2))


def cexp(p):
    if p.is_real():
        return rexp(p)
    r = re(p)
    return rexp(r) * phase(im(p) * inv(PI).scale(Fraction(1, 2)))


def cos(p):
    t = p * inv(PI).scale(Fraction(1, 2))
    return (phase(t) + phase(-t)).scale(Fraction(1, 2))


def sin(p):
    t = p * inv(PI).scale(Fraction(1, 2))
    return (phase(t) - phase(-t)) * I.scale(Fraction(-1, 2))


def _content(p):
    """(coef, mono, primitive) with p = coef*mono*primitive; canonical."""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a in d:
                e0, e1 = common[a], d[a]
                if e0 > 0 and e1 > 0:
                    common[a] = min(e0, e1)
                elif e0 < 0 and e1 < 0:
                    common[a] = max(e0, e1)
                else:
                    del common[a]
            else:
                del common[a]
        if not common:
            break
    # clear remaining negative exponents (common denominators)
    neg = {}
    for m in ms:
        for a, e in m:
            if e < 0:
                left = e - min(common.get(a, 0), 0)
                if left < 0:
                    neg[a] = min(neg.get(a, 0), left)
    for a, e in neg.items():
        common[a] = common.get(a, 0) + e
        if common[a] == 0:
            del common[a]
    for a in list(common):
        if _atoms[a].kind in ("i", "E", "Exp", "ind", "Sqrt", "Abs", "cbrt"):
            if _atoms[a].kind in ("Sqrt", "Abs", "ind", "cbrt"):
                del common[a]
    mono = tuple(sorted(common.items()))
    if mono:
        r = ONE
        plain = {}
        for a, e in mono:
            if _atoms[a].kind in ("i", "E", "Exp"):
                r = r * _atom_pow(_atoms[a], -e)
            else:
                plain[a] = e
        if plain:
            t = {}
            for m, c in p.t.items():
                d = dict(m)
                for a, e in plain.items():
                    x = d.get(a, 0) - e
                    if x:
                        d[a] = x
                    else:
                        d.pop(a, None)
                t[tuple(sorted(d.items()))] = c
            q = Poly(t) * r
        else:
            q = p * r
    else:
        q = p
    if not q.t:
        return 0, (), q
    lead = min(q.t)
    c = q.t[lead]
    q = q.scale(Fraction(1) / c)
    return c, mono, q


def _atom_pow(a, e):
    if e > 0:
        r = mono1(a)
        return r if e == 1 else r ** e
    if a.kind == "i":
        return (-I) ** (-e)
    if a.kind == "E":
        return phase(a.args[0].scale(e))
    if a.kind == "Exp":
        return rexp(a.args[0].scale(e))
    if a.kind == "Sqrt":
        return (mono1(a) * inv(a.args[0])) ** (-e)
    if a.kind == "Abs":
        return (mono1(a) * inv(a.args[0] * a.args[0])) ** (-e)
    if a.kind == "cbrt":
        return (mono1(a) * mono1(a) * inv(a.args[0])) ** (-e)
    if a.kind == "ind":
        raise Unsupported("division by an indicator")
    if a.kind == "Inv":
        return a.args[0] ** (-e)
    return Poly({((a.id, e),): 1})


UNDEF_N = [0]
DENOMS = {}


def undef():
    UNDEF_N[0] += 1
    return var("undef!%d" % UNDEF_N[0])


def inv(p):
    if p.is_const():
        c = p.const()
        if c == 0:
            return undef()
        return P(Fraction(1) / c)

    def mk(p):
        if p.is_zero():
            return undef()
        if p.is_const():
            return P(Fraction(1) / p.const())
        c, mono, q = _content(p)
        if q.is_zero():
            return undef()
        r = P(Fraction(1) / c)
        for a, e in mono:
            at = _atoms[a]
            if at.kind not in ("i", "E", "Exp") and not at.pos:
                DENOMS.setdefault(a, at)
            r = r * _atom_pow(at, -e)
        if q.is_const():
            return r
        if len(q.t) == 1:
            ((m, cc),) = q.t.items()
            r = r.scale(Fraction(1) / cc)
            for a, e in m:
                r = r * _atom_pow(_atoms[a], -e)
            return r
        at = mk_atom("Inv", (q,), real=q.is_real(), deps=q.deps,
                     depth=q.depth)
        DENOMS.setdefault(at.id, at)
        return r * mono1(at)
    return lift([p], mk)


def _split_square(n):
    """n = s*s*r, r squarefree (trial division, small)."""
    s, r, f = 1, n, 2
    if n > 10**12:
        q = isqrt(n)
        if q * q == n:
            return q, 1
        return 1, n
    while f * f <= r:
        while r % (f * f) == 0:
            r //= f * f
            s *= f
        f += 1
    return s, r


def is_nonneg(p):
    """Syntactic: sum of nonneg monomials."""
    for m, c in p.t.items():
        if c < 0:
            return False
        if not mono_nonneg(m):
            return False
    return True


def mono_nonneg(m):
    pend = None
    for a, e in m:
        at = _atoms[a]
        if at.nonneg:
            continue
        if e % 2 == 0 and at.real:
            continue
        if at.real:
            return False
        if pend is None:
            pend = {}
        pend[a] = e
    if pend is None:
        return True
    # |z|^2 pairs
    while pend:
        a, e = pend.popitem()
        at = _atoms[a]
        if at.kind in ("i", "E"):
            return False
        try:
            cp = conj_atom(at)
        except Unsupported:
            return False
        if len(cp.t) != 1:
            return False
        ((cm, cc),) = cp.t.items()
        if cc != 1 or len(cm) != 1 or cm[0][1] != 1:
            return False
        if pend.pop(cm[0][0], None) != e:
            return False
    return True


def sqrt(p):
    def mk(p):
        if p.is_zero():
            return ZERO
        if len(p.t) == 1:
            ((m, c),) = p.t.items()
            if c > 0:
                c = Fraction(c)
                # c = n/d = n*d/d^2
                s, r = _split_square(c.numerator * c.denominator)
                out = P(Fraction(s, c.denominator))
                if r != 1:
                    out = out * mono1(mk_atom("Sqrt", (P(r),), pos=True))
                rest = []
                for a, e in m:
                    at = _atoms[a]
                    if at.kind == "Exp":
                        out = out * rexp(at.args[0].scale(Fraction(e, 2)))
                    elif at.nonneg:
                        q, rr = divmod(e, 2)
                        if q:
                            out = out * _atom_pow(at, q)
                        if rr:
                            out = out * mono1(mk_atom(
                                "Sqrt", (mono1(at),), pos=at.pos,
                                nonneg=True, deps=at.deps, depth=at.depth))
                    elif at.real and e % 2 == 0:
                        out = out * absr(_atom_pow(at, e // 2))
                    else:
                        rest.append((a, e))
                if rest:
                    q = Poly({tuple(rest): 1})
                    out = out * mono1(mk_atom("Sqrt", (q,), nonneg=True,
                                              deps=q.deps, depth=q.depth))
                return out
        # content: pull out positive atoms and rational squares
        c, mono, q = _content(p)
        out = ONE
        inner = q
        cf = Fraction(abs(c))
        s, r = _split_square(cf.numerator * cf.denominator)
        out = P(Fraction(s, cf.denominator))
        inner = inner.scale(r if c > 0 else -r)
        keep = ONE
        for a, e in mono:
            at = _atoms[a]
            if at.kind == "Exp":
                out = out * rexp(at.args[0].scale(Fraction(e, 2)))
            elif at.nonneg:
                qq, rr = divmod(e, 2)
                if qq:
                    out = out * _atom_pow(at, qq)
                if rr:
                    keep = keep * mono1(at)
            elif at.real and e % 2 == 0:
                out = out * absr(_atom_pow(at, e // 2))
            else:
                keep = keep * _atom_pow(at, e)
        inner = inner * keep
        at = mk_atom("Sqrt", (inner,), nonneg=True, deps=inner.deps,
                     depth=inner.depth)
        return out * mono1(at)
    if p.is_const() and p.const() < 0:
        raise Unsupported("sqrt of a negative constant")
    if not p.is_real():
        raise Unsupported("sqrt of a complex value")
    return lift([p], mk)


def absr(p):
    """|p| for real p."""
    def mk(p):
        if p.is_zero():
            return ZERO
        if p.is_const():
            return P(abs(p.const()))
        if is_nonneg(p):
            return p
        if is_nonneg(-p):
            return -p
        c, mono, q = _content(p)
        out = P(abs(c))
        for a, e in mono:
            at = _atoms[a]
            if at.nonneg:
                out = out * _atom_pow(at, e)
            elif at.real:
                q1, r1 = divmod(e, 2)
                if q1:
                    out = out * _atom_pow(at, 2 * q1)
                if r1:
                    out = out * mono1(mk_atom("Abs", (mono1(at),),
                                              nonneg=True, deps=at.deps,
                                              depth=at.depth))
            else:
                q = q * _atom_pow(at, e)
        if not q.is_const():
            if not is_nonneg(q):
                q2 = -q
                if is_nonneg(q2):
                    return out * q2
                at = mk_atom("Abs", (q,), nonneg=True, deps=q.deps,
                             depth=q.depth)
                out = out * mono1(at)
            else:
                out = out * q
        else:
            out = out.scale(abs(q.const()))
        return out
    return lift([p], mk)


def cabs(p):
    if p.is_real():
        return absr(p)
    return sqrt(p * conj(p))


def cbrt(p):
    def mk(p):
        if p.is_zero():
            return ZERO
        at = mk_atom("cbrt", (p,), nonneg=is_nonneg(p), deps=p.deps,
                     depth=p.depth)
        return mono1(at)
    return lift([p], mk)


def conj_atom(at):
    if at.real:
        return mono1(at)
    if at._conj is not None:
        return at._conj
    k = at.kind
    if k == "i":
        r = -I
    elif k == "E":
        r = phase(-at.args[0])
    elif k == "app":
        r = mono1(mk_atom("app", (at.args[0], not at.args[1]) + at.args[2:],
                          real=False, deps=at.deps, depth=at.depth))
    elif k == "var":
        nm = at.args[0]
        nm = nm[:-1] if nm.endswith("~") else nm + "~"
        a2 = _intern.get(("var", nm))
        if a2 is None:
            a2 = mk_atom("var", (nm,), real=False)
            a2.deps = at.deps | {a2.id}
            at.deps = a2.deps
        r = mono1(a2)
    elif k == "Inv":
        r = inv(conj(at.args[0]))
    elif k == "Sum":
        hi, body, bv = at.args
        r = sum_canon(hi, conj(body), bv)
    else:
        raise Unsupported("conjugate of %s" % k)
    at._conj = r
    return r


def conj(p):
    out = ZERO
    real = {}
    for m, c in p.t.items():
        if all(_atoms[a].real for a, _ in m):
            real[m] = c
            continue
        r = P(c)
        rest = []
        for a, e in m:
            at = _atoms[a]
            if at.real:
                rest.append((a, e))
            else:
                ca = conj_atom(at)
                if e > 0:
                    r = r * (ca if e == 1 else ca ** e)
                else:
                    r = r * inv(ca) ** (-e)
        if rest:
            r = r * Poly({tuple(rest): 1})
        out = out + r
    return out + Poly(real)


# ---------------------------------------------------------------- subst
def subst(p, mp):
    """Simultaneous substitution of var atoms {id: Poly}."""
    if not mp or p.deps.isdisjoint(mp):
        return p
    memo = {}
    return _subst(p, mp, memo)


def _subst(p, mp, memo):
    if p.deps.isdisjoint(mp):
        return p
    k = ("p", p)
    r = memo.get(k)
    if r is not None:
        return r
    keep = {}
    out = ZERO
    for m, c in p.t.items():
        if all(_atoms[a].deps.isdisjoint(mp) for a, _ in m):
            keep[m] = c
            continue
        r = P(c)
        rest = []
        for a, e in m:
            at = _atoms[a]
            if at.deps.isdisjoint(mp):
                rest.append((a, e))
            else:
                na = _subst_atom(at, mp, memo)
                r = r * (na if e == 1 else na ** e)
        if rest:
            r = r * Poly({tuple(rest): 1})
        out = out + r
    out = out + Poly(keep)
    memo[k] = out
    return out


def _subst_atom(at, mp, memo):
    r = memo.get(at.id)
    if r is not None:
        return r
    k = at.kind
    if k == "var":
        r = mp.get(at.id)
        if r is None:
            # conjugate partner of a substituted complex var
            nm = at.args[0]
            nm2 = nm[:-1] if nm.endswith("~") else nm + "~"
            a2 = _intern.get(("var", nm2))
            if a2 is not None and a2.id in mp:
                r = conj(mp[a2.id])
            else:
                r = mono1(at)
    elif k == "app":
        args = [(_subst(x, mp, memo) if isinstance(x, Poly) else
                 (x.subst(mp) if hasattr(x, "subst") else x))
                for x in at.args[2:]]
        r = app(at.args[0], args, real=at.real, integer=at.integer,
                pos=at.pos, nonneg=at.nonneg, conjd=at.args[1])
    elif k == "Def":
        r = name(_subst(at.args[0], mp, memo))
    elif k == "ind":
        r = indicator(at.args[0].subst(mp))
    elif k == "E":
        r = phase(_subst(at.args[0], mp, memo))
    elif k == "Exp":
        r = rexp(_subst(at.args[0], mp, memo))
    elif k == "Sqrt":
        r = sqrt(_subst(at.args[0], mp, memo))
    elif k == "Abs":
        r = absr(_subst(at.args[0], mp, memo))
    elif k == "cbrt":
        r = cbrt(_subst(at.args[0], mp, memo))
    elif k == "Inv":
        r = inv(_subst(at.args[0], mp, memo))
    elif k == "fdiv":
        r = fdiv(_subst(at.args[0], mp, memo), _subst(at.args[1], mp, memo))
    elif k == "floor":
        r = floor(_subst(at.args[0], mp, memo))
    elif k == "Sum":
        hi, body, bv = at.args
        tmp = fresh("b", integer=True)
        nb = _subst(subst(body, {bv: tmp}), mp, {})
        r = bigsum(_subst(hi, mp, memo), tmp, nb)
    else:
        raise Unsupported("substitution in %s" % k)
    memo[at.id] = r
    return r


# ---------------------------------------------------------------- fdiv
FDIV_HOOK = [None]


def fdiv(a, b):
    """floor(a/b) for integer a, b (b > 0 assumed by callers)."""
    def mk(a, b):
        if a.is_const() and b.is_const():
            return P(int(Fraction(a.const()) // Fraction(b.const())))
        if b.is_const() and b.const() == 1:
            return a
        # pull out exact multiples of b
        if b.is_const():
            c = b.const()
            q = {}
            rest = {}
            for m, cc in a.t.items():
                k = Fraction(cc) / c
                if k.denominator == 1:
                    q[m] = int(k)
                else:
                    kk = k.numerator // k.denominator
                    if m == () and kk:
                        q[m] = kk
                        rest[m] = _n(cc - kk * c)
                    else:
                        rest[m] = cc
            if q:
                return Poly(q) + fdiv(Poly(rest), b)
        elif len(b.t) == 1:
            ((bm, bc),) = b.t.items()
            q = ZERO
            rest = {}
            bd = dict(bm)
            for m, cc in a.t.items():
                d = dict(m)
                if all(d.get(x, 0) >= e for x, e in bd.items()) \
                        and cc % bc == 0:
                    nm = {x: e - bd.get(x, 0) for x, e in d.items()}
                    q = q + Poly({tuple(sorted((x, e) for x, e in nm.items()
                                               if e)): cc // bc})
                else:
                    rest[m] = cc
            if not q.is_zero():
                return q + fdiv(Poly(rest), b)
        if FDIV_HOOK[0] is not None:
            r = FDIV_HOOK[0](a, b)
            if r is not None:
                return r
        at = mk_atom("fdiv", (a, b), integer=True, deps=a.deps | b.deps,
                     depth=max(a.depth, b.depth))
        return mono1(at)
    return lift([a, b], mk)


def floor(p):
    """floor of a real."""
    def mk(p):
        if p.is_const():
            c = Fraction(p.const())
            return P(c.numerator // c.denominator)
        if p.is_integer():
            return p
        it = {}
        rest = {}
        for m, c in p.t.items():
            if (not isinstance(c, Fraction)) and all(
                    e > 0 and _atoms[a].integer for a, e in m):
                it[m] = c
            else:
                rest[m] = c
        if it:
            return Poly(it) + floor(Poly(rest))
        den, dc = {}, 1
        for m, c in p.t.items():
            dc = math.lcm(dc, Fraction(c).denominator)
            for a, e in m:
                at = _atoms[a]
                if not at.integer or (e < 0 and not at.pos):
                    break
                if e < 0:
                    den[a] = max(den.get(a, 0), -e)
            else:
                continue
            break
        else:
            d = Poly({tuple(sorted(den.items())): dc})
            return fdiv(p * d, d)
        at = mk_atom("floor", (p,), integer=True, deps=p.deps, depth=p.depth)
        return mono1(at)
    return lift([p], mk)


# ---------------------------------------------------------------- sums
_bound = {}


def bound_var(d):
    b = _bound.get(d)
    if b is None:
        b = var("_b%d" % d, integer=True, nonneg=True)
        _bound[d] = b
    return b


def bigsum(hi, v, body):
    """sum_{v=0}^{hi-1} body, v a fresh integer variable Poly."""
    hi = P(hi)
    vid = atom_of(v).id
    if hi.is_const() and 0 <= hi.const() <= 12:
        out = ZERO
        for n in range(int(hi.const())):
            out = out + subst(body, {vid: P(n)})
        return out
    return _bigsum(hi, vid, body)


SUM_RULES = []


def _bigsum(hi, vid, body):
    out = ZERO
    # body at an isolated index:  I(v == e) * f(v)  ->  I(0<=e<hi) f(e)
    for m, c in body.t.items():
        coef = []
        dep = []
        for a, e in m:
            if vid in _atoms[a].deps:
                dep.append((a, e))
            else:
                coef.append((a, e))
        cp = Poly({tuple(coef): c})
        if not dep:
            out = out + cp * hi
            continue
        b = Poly({tuple(dep): 1})
        r = None
        for rule in SUM_RULES:
            r = rule(hi, vid, b)
            if r is not None:
                break
        if r is None:
            if len(dep) == 1 and _atoms[dep[0][0]].kind == "var" \
                    and dep[0][0] == vid and dep[0][1] in (1, 2):
                if dep[0][1] == 1:
                    r = (hi * (hi - 1)).scale(Fraction(1, 2))
                else:
                    r = (hi * (hi - 1) * (hi.scale(2) - 1)).scale(
                        Fraction(1, 6))
            else:
                r = _sum_atom(hi, vid, b)
        out = out + cp * r
    return out


def sum_canon(hi, body, bv):
    tmp = fresh("b", integer=True)
    return bigsum(hi, tmp, subst(body, {bv: tmp}))


def _sum_atom(hi, vid, b):
    d = max((_atoms[a].depth for (m,) in [tuple(b.t)] for a, _ in m),
            default=0) + 1
    bv = bound_var(d)
    bid = atom_of(bv).id
    nb = subst(b, {vid: bv})
    if len(nb.t) != 1 or list(nb.t.values())[0] != 1:
        # substitution changed the shape; redo with the canonical variable
        out = ZERO
        for m, c in nb.t.items():
            dep = [x for x in m if bid in _atoms[x[0]].deps]
            co = [x for x in m if bid not in _atoms[x[0]].deps]
            cp = Poly({tuple(co): c})
            if not dep:
                out = out + cp * hi
            else:
                out = out + cp * mono1(_mk_sum(hi, Poly({tuple(dep): 1}),
                                               bid, d))
        return out
    return mono1(_mk_sum(hi, nb, bid, d))


def _mk_sum(hi, nb, bid, d):
    deps = (nb.deps - {bid}) | hi.deps
    nonneg = is_nonneg(nb)
    return mk_atom("Sum", (hi, nb, bid), real=nb.is_real(), deps=deps,
                   depth=d, nonneg=nonneg, integer=nb.is_integer())


# ---------------------------------------------------------------- calculus
def diff(p, v):
    """d p / d v for a real var Poly v."""
    vid = atom_of(v).id
    return _diff(p, vid)


def _diff(p, vid):
    out = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            at = _atoms[a]
            if vid not in at.deps:
                continue
            rest = Poly({m[:i] + m[i + 1:]: c})
            da = _diff_atom(at, vid)
            out = out + rest * da * P(e) * (
                _atom_pow(at, e - 1) if e != 1 else ONE)
    return out


def _diff_atom(at, vid):
    k = at.kind
    if k == "var":
        return ONE if at.id == vid else ZERO
    if k == "Exp":
        return mono1(at) * _diff(at.args[0], vid)
    if k == "E":
        return mono1(at) * _diff(at.args[0], vid) * PI.scale(2) * I
    if k == "Sqrt":
        return _diff(at.args[0], vid) * mono1(at) \
            * inv(at.args[0]).scale(Fraction(1, 2))
    if k == "Inv":
        return -_diff(at.args[0], vid) * mono1(at) * mono1(at)
    if k == "Sum":
        hi, body, bv = at.args
        tmp = fresh("b", integer=True)
        return bigsum(hi, tmp, _diff(subst(body, {bv: tmp}), vid))
    raise Unsupported("derivative of %s" % k)


# ---------------------------------------------------------------- show
def show_atom(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k in ("i", "pi"):
        return k
    if k == "app":
        n = a.args[0]
        return "%s%s(%s)" % (n if isinstance(n, str) else "/".join(
            str(x) for x in n), "~" if a.args[1] else "",
            ", ".join(str(x) for x in a.args[2:]))
    if k == "Sum":
        return "Sum[%s<%s](%s)" % (_atoms[a.args[2]].args[0], a.args[0],
                                   a.args[1])
    return "%s(%s)" % (k, ", ".join(str(x) for x in a.args))


def show(p, limit=40):
    if not p.t:
        return "0"
    parts = []
    for n, (m, c) in enumerate(sorted(p.t.items())):
        if n >= limit:
            parts.append("... (%d terms)" % len(p.t))
            break
        fs = []
        for a, e in m:
            s = show_atom(_atoms[a])
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        if c != 1 or not fs:
            fs.insert(0, str(c))
        parts.append("*".join(fs))
    return " + ".join(parts)


def get_atom(i):
    return _atoms[i]
