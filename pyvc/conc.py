"""Concrete execution of a contract harness against the real code (repo's own
interpreter, real numpy): replay of failed obligations and run-time contract
checking.  No solver is imported here."""
import math
import warnings
import numpy as np


class Discard(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, name, detail):
        self.name = name
        self.detail = detail


class Skip(BaseException):
    """harness has no concrete counterpart"""


def _sc(x):
    x = np.asarray(x)
    if x.size == 0:
        return 0.0
    with np.errstate(all="ignore"):
        m = np.abs(x)
        m = m[np.isfinite(m)]
    return float(m.max()) if m.size else 0.0


class ConcCtx:
    sym = False

    concrete = True

    def __init__(self, seed, hints=None, choices=None, grid=False):
        self.rng = np.random.default_rng(seed)
        self.np = np
        self.hints = hints or {}
        self.forced = choices or {}
        self.log = {}
        self.frozen = []
        self.checks = 0
        self.patches = []
        self.counts = {}
        # some executions use small exact numbers (ties, zeros, extremes)
        self.grid = grid and self.rng.random() < 0.4

    # -- inputs ----------------------------------------------------------
    def int(self, name, lo=None, hi=None, gen=None):
        if name in self.hints and self.rng.random() < 0.7:
            v = int(self.hints[name])
            if abs(v) > 3000:
                v = None
        else:
            v = None
        if v is None:
            if gen is not None:
                v = int(gen(self.rng))
            else:
                a = -6 if lo is None else lo
                if hi is None:
                    b = max(a, 0) + (12 if self.rng.random() < .8 else 40)
                else:
                    b = int(hi)
                if b < a:
                    raise Discard()
                r = self.rng.random()
                if r < 0.15:
                    v = a
                elif r < 0.3:
                    v = b
                else:
                    v = int(self.rng.integers(a, b + 1))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        self.log[name] = v
        return v

    def _cell(self, shape, pos, nonneg, nonzero=False):
        if pos:
            o = [0.5, 1.0, 2.0, 3.0]
        elif nonneg:
            o = [0.0, 0.0, 1.0, 2.0]
        else:
            o = [-2.0, -1.0, 0.0, 0.0, 0.5, 1.0, 1.0, 2.0, 3.0]
        if nonzero:
            o = [x for x in o if x]
        return self.rng.choice(o, size=shape)

    def real(self, name, pos=False, nonneg=False, nonzero=False, gen=None,
             like=None):
        v = None
        if like is not None and self.rng.random() < 0.4:
            cand = like()
            v = float(cand[int(self.rng.integers(len(cand)))])
            self.log[name] = v
            return v
        if self.grid and gen is None and self.rng.random() < 0.7:
            v = float(self._cell((), pos, nonneg, nonzero))
            self.log[name] = v
            return v
        if name in self.hints and self.rng.random() < 0.5:
            v = float(self.hints[name])
            if not (1e-6 < abs(v) < 1e6):
                v = None
        if v is None:
            if gen is not None:
                v = float(gen(self.rng))
                if nonneg and self.rng.random() < .06:
                    v = 0.0
            elif pos:
                v = float(np.exp(self.rng.normal() * 0.7))
            elif nonneg:
                v = float(abs(self.rng.normal()))
                if self.rng.random() < .1:
                    v = 0.0
            else:
                v = float(self.rng.normal())
                if not nonzero and self.rng.random() < .05:
                    v = 0.0
        self.log[name] = v
        return v

    def bounded(self, why):
        pass

    def to_int(self, name, x):
        self.checks += 1
        m = int(round(float(x)))
        if abs(float(x) - m) > 1e-5 * max(1.0, abs(m)):
            self._fail(name, "%r is not an integer" % (x,))
        return m

    def complex(self, name, gen=None):
        v = complex(self.rng.normal(), self.rng.normal())
        self.log[name] = v
        return v

    def array(self, name, shape, real=True, pos=False, nonneg=False,
              dtype=None, gen=None, frozen=True, lo=None, hi=None):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        if gen is not None:
            a = np.array(gen(self.rng, shape))
        elif dtype == "b":
            a = self.rng.random(shape) < self.rng.choice([.1, .5, .9])
        elif dtype == "i":
            a = self.rng.integers(-5 if lo is None else int(lo),
                                  6 if hi is None else int(hi) + 1, shape)
        elif lo is not None or hi is not None:
            lo_ = -10. if lo is None else float(lo)
            a = lo_ + self.rng.random(shape) * (
                (lo_ + 20 if hi is None else float(hi)) - lo_)
        elif not real:
            a = self.rng.normal(size=shape) + 1j * self.rng.normal(size=shape)
        elif self.grid and self.rng.random() < 0.7:
            a = self._cell(shape, pos, nonneg)
            if self.rng.random() < .2 and not pos:
                a = a * (self.rng.random(shape) < .3)
        elif pos:
            a = np.exp(self.rng.normal(size=shape) * 0.6)
        elif nonneg:
            a = np.abs(self.rng.normal(size=shape))
        else:
            a = self.rng.normal(size=shape)
        self.log[name] = a.copy()
        if frozen:
            self.frozen.append((name, a, a.copy()))
        return a

    def choice(self, name, options):
        if name in self.forced and self.rng.random() < 0.8:
            k = self.forced[name]
        else:
            k = int(self.rng.integers(0, len(options)))
        self.log["choice " + name] = k
        return options[k]

    def flag(self, name):
        return self.choice(name, [False, True])

    def index(self, name, n):
        n = int(n)
        if n <= 0:
            raise Discard()
        v = int(self.rng.integers(0, n))
        self.log[name] = v
        return v

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Discard()

    def regular(self, fn):
        """precondition that makes denominators non-zero (the symbolic side
        assumes that globally)"""
        if not bool(np.all(fn())):
            raise Discard()

    def assume_all(self, n, pred):
        for j in range(int(n)):
            if not bool(pred(j)):
                raise Discard()

    # -- obligations -----------------------------------------------------
    def _fail(self, name, detail):
        raise Violation(name, detail)

    def check(self, name, cond):
        self.checks += 1
        if not bool(np.all(cond)):
            self._fail(name, "condition is false")

    def implies(self, a, b):
        return (not bool(a)) or b

    def leq(self, a, b, scale=None, tol=1e-7):
        s = max(_sc(a), _sc(b), 0.0 if scale is None else _sc(scale))
        return bool(a <= b + (1e-7 if tol is None else tol) * s)

    def both(self, a, b):
        return bool(a) and bool(b)

    def either(self, a, b):
        return bool(a) or bool(b)

    def neg(self, a):
        return not bool(a)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def le(self, name, a, b, tol=1e-7, scale=None):
        self.checks += 1
        tol = 1e-7 if tol is None else tol
        s = max(_sc(a), _sc(b), 0.0 if scale is None else _sc(scale))
        if np.any(np.isnan(a)) or np.any(np.isnan(b)):
            self._fail(name, "NaN in %r <= %r" % (a, b))
        if not bool(np.all(np.asarray(a) <= np.asarray(b) + tol * s)):
            self._fail(name, "%r <= %r does not hold" % (a, b))

    def eq(self, name, a, b, tol=1e-6, scale=None):
        self.checks += 1
        tol = 1e-6 if tol is None else tol
        if a is None or b is None or isinstance(a, str) or \
                isinstance(b, str):
            if not (a is b or (isinstance(a, str) and a == b)):
                self._fail(name, "%r != %r" % (a, b))
            return
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                self._fail(name, "lengths %d != %d" % (len(a), len(b)))
            for j, (x, y) in enumerate(zip(a, b)):
                self.eq("%s[%d]" % (name, j), x, y, tol, scale)
            return
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            self._fail(name, "shape %s != %s" % (x.shape, y.shape))
        if x.dtype == bool and y.dtype == bool:
            if not bool(np.all(x == y)):
                self._fail(name, "%r != %r" % (a, b))
            return
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not bool(np.all(fx == fy)):
            self._fail(name, "finiteness differs: %r vs %r" % (a, b))
        s = max(_sc(x), _sc(y), 0.0 if scale is None else _sc(scale))
        with np.errstate(all="ignore"):
            d = np.abs(x - y)[fx & fy] if x.shape else (
                np.array([abs(x - y)]) if fx and fy else np.array([]))
        if d.size and not bool(np.all(d <= tol * s)):
            self._fail(name, "max difference %g (scale %g): got %s expected "
                       "%s" % (float(d.max()), s, _short(x), _short(y)))

    def need(self, obj, name):
        if not hasattr(obj, name):
            raise Skip()

    def raises(self, fn, *excs):
        excs = excs or (Exception,)
        try:
            r = fn()
        except excs as e:
            return e, None
        return None, r

    def unchanged(self, name, arr):
        for nm, a, a0 in self.frozen:
            if a is arr:
                self.checks += 1
                if not np.array_equal(a, a0, equal_nan=a.dtype.kind in "fc"):
                    self._fail("frame:" + nm, "input %s was modified" % nm)
                return

    def frame(self):
        for nm, a, a0 in self.frozen:
            self.checks += 1
            if not np.array_equal(a, a0, equal_nan=a.dtype.kind in "fc"):
                self._fail("frame:" + nm, "input %s was modified" % nm)

    def cover(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def stub(self, dotted, fn):
        """replace a library function by its contract stub"""
        import sys
        mod, _, nm = dotted.rpartition(".")
        import importlib
        m = importlib.import_module(mod)
        old = getattr(m, nm)
        targets = [(m, nm)]
        for k, q in list(sys.modules.items()):
            if k.startswith("qetpy") and getattr(q, nm, None) is old:
                targets.append((q, nm))
        for q, n in targets:
            self.patches.append((q, n, getattr(q, n)))
            setattr(q, n, fn)
        return old

    def override(self, target, fn):
        pass

    def replace(self, cls, name, fn):
        """a method replaced in both modes"""
        self.patches.append((cls, name, getattr(cls, name)))
        setattr(cls, name, fn)

    def spy(self, target):
        """record the arguments of the calls of a helper (empty if there is
        no such helper)"""
        import functools
        import importlib
        import inspect
        mod, _, qual = target.partition(":")
        o = importlib.import_module(mod)
        parts = qual.split(".")
        calls = []
        for x in parts[:-1]:
            o = getattr(o, x, None)
        old = vars(o).get(parts[-1]) if o is not None else None
        if old is None:
            return calls
        f = old.__func__ if isinstance(old, staticmethod) else old
        sig = inspect.signature(f)

        @functools.wraps(f)
        def g(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls.append(dict(b.arguments))
            return f(*a, **k)
        self.patches.append((o, parts[-1], old))
        setattr(o, parts[-1], staticmethod(g) if isinstance(
            old, staticmethod) else g)
        return calls

    def term(self, *xs):
        pass

    def loop_invariant(self, fn):
        pass

    def opaque(self, *exprs):
        return lambda x: x

    def mask_like(self, name, arr):
        return self.rng.uniform(size=len(arr)) < self.rng.uniform()

    def fresh_real(self, name):
        return float(self.rng.normal())

    def fresh_array(self, name, n, **kw):
        return self.array(name, n, frozen=False, **kw)

    def close(self):
        for q, n, v in reversed(self.patches):
            setattr(q, n, v)


def _short(x):
    s = np.array2string(np.asarray(x), threshold=12, precision=8)
    return s.replace("\n", " ")[:300]


def run_one(h, seed, hints=None, choices=None, grid=False):
    """None if the contract held, 'discard', or a Violation"""
    c = ConcCtx(seed, hints, choices, grid)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                h(c)
        return None, c
    except Discard:
        return "discard", c
    except Skip:
        return "skip", c
    except Violation as v:
        return v, c
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%s" % (f.filename, f.lineno) for f in tb[-3:])
        return Violation("no exception (%s)" % type(e).__name__,
                         "%s: %s at %s" % (type(e).__name__, e, where)), c
    finally:
        c.close()
