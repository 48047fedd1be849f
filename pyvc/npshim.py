"""Symbolic model of the numpy / scipy functions the verified code calls.

Every function here is an ASSUMED CONTRACT on the library (listed in the
evidence): array algebra over exact reals, the DFT by its defining sum, and so
on.  Anything not modelled raises Unsupported (never a verdict)."""
from fractions import Fraction
from . import ring, form
from .ring import Poly, P, ONE, ZERO, I, PI, Unsupported, get_atom, mono1
from .form import TRUE, FALSE, f_and, f_or, f_not, lt0, le0, eq0, f_bool
from .sym import (S, B, known_pos, SymArr, Dim, Buf, Pos, path, to_S, form_of, ite,
                  elementwise, as_arr, fresh_index, pylen, dimlen, same_dim,
                  is_one, dtype_kind, Dtype, mk_filter_dim, bidx,
                  broadcast_dims, s_abs, s_sqrt, s_div, s_pow, s_round,
                  promote, INF, _b, s_trunc)
from .index import nonempty, take, getitem, Ix

USED = {}


def used(name):
    USED[name] = USED.get(name, 0) + 1


class Lam:
    """canonical one-argument function used as an atom argument"""
    _tab = {}

    def __new__(cls, body, bv):
        key = (body, bv)
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.body = body
            r.bv = bv
            r.deps = frozenset(body.deps - {bv})
            r.depth = body.depth + 1
            cls._tab[key] = r
        return r

    @staticmethod
    def of(fn, n):
        k = fresh_index(n)
        body = fn(k)
        bv = ring.bound_var(body.depth + 1)
        nb = ring.subst(body, {ring.atom_of(k).id: bv})
        return Lam(nb, ring.atom_of(bv).id)

    @staticmethod
    def of_form(fn):
        k = ring.fresh("k", integer=True, nonneg=True)
        body = fn(k) if fn is not None else TRUE
        bv = ring.bound_var(body.depth + 1)
        nb = body.subst({ring.atom_of(k).id: bv})
        return Lam(nb, ring.atom_of(bv).id)

    def subst(self, mp):
        if self.deps.isdisjoint(mp):
            return self
        k = ring.fresh("k", integer=True, nonneg=True)
        if isinstance(self.body, Poly):
            b = ring.subst(ring.subst(self.body, {self.bv: k}), mp)
            bv = ring.bound_var(b.depth + 1)
            return Lam(ring.subst(b, {ring.atom_of(k).id: bv}),
                       ring.atom_of(bv).id)
        b = self.body.subst({self.bv: k}).subst(mp)
        bv = ring.bound_var(b.depth + 1)
        return Lam(b.subst({ring.atom_of(k).id: bv}), ring.atom_of(bv).id)

    def at(self, p):
        return ring.subst(self.body, {self.bv: p})

    def __repr__(self):
        return "lam(%r)" % (self.body,)


# ---------------------------------------------------------------- mod-shift
def unshift(body, vid, n, nfacts=None):
    """If body depends on v only through (v + c) mod n, return (g, c) with
    body = g((v+c) mod n), g as Poly in v; else None."""
    v = mono1(get_atom(vid))
    found = {}
    stack = [body]
    seen = set()
    while stack:
        q = stack.pop()
        if q in seen:
            continue
        seen.add(q)
        for m in q.t:
            for a, _ in m:
                at = get_atom(a)
                if vid not in at.deps:
                    continue
                if at.kind == "fdiv":
                    found[a] = at
                for x in at.args:
                    if isinstance(x, Poly):
                        stack.append(x)
    if len(found) != 1:
        return None
    at = next(iter(found.values()))
    if at.args[1] != n:
        return None
    c = at.args[0] - v
    if vid in c.deps or not c.is_integer():
        return None
    # body[v := v - c, fdiv(v,n) := 0]
    g = ring.subst(body, {vid: v - c})
    from .prover import replace_atom
    fd = ring.mk_atom("fdiv", (v, n), integer=True, deps=v.deps | n.deps)
    g = replace_atom(g, fd.id, ZERO)
    # verify
    md = v + c - n * mono1(at)
    back = ring.subst(g, {vid: md})
    if back != body:
        return None
    return g, c


def _stride_of(b, vid):
    """constant s of a quotient (k + c) // s in the body, if there is one"""
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            if vid not in x.deps:
                continue
            for m in x.t:
                for a, _ in m:
                    if a not in seen:
                        seen.add(a)
                        at = get_atom(a)
                        if at.kind == "fdiv" and at.args[1].is_const() and \
                                1 < at.args[1].const() <= 4 and \
                                at.args[0].t.get(((vid, 1),)) == 1:
                            return int(at.args[1].const())
                        st += list(at.args)
        elif isinstance(x, form.Form):
            st += list(x.args)
        elif isinstance(x, (tuple, list)):
            st += list(x)
    return None


def _whole_range(f, vid, hi):
    """truth of a linear inequality for all 0 <= v < hi, if it is constant"""
    p = f.args[0]
    c = p.t.get(((vid, 1),))
    if c is None or vid in (p - Poly({((vid, 1),): c})).deps:
        return None
    a = ring.subst(p, {vid: ZERO})
    b = ring.subst(p, {vid: hi - 1})
    if c > 0:
        a, b = b, a
    # a is the largest, b the smallest value
    strict = f.kind == "lt"
    if a.is_const() and (a.const() < 0 or (not strict and a.const() == 0)):
        return True
    if b.is_const() and (b.const() > 0 or (strict and b.const() == 0)):
        return False
    return None


def _sum_rules(hi, vid, b):
    (m,) = b.t
    # interleaved data: one sum per residue class
    s = _stride_of(b, vid)
    if s is not None:
        out = ZERO
        for r in range(s):
            h = ring.fdiv(hi - P(r) + P(s - 1), P(s))
            k = fresh_index(h)
            out = out + ring.bigsum(h, k, ring.subst(b, {vid: k * s + r}))
        return out
    for j, (a, e) in enumerate(m):
        at = get_atom(a)
        # condition that is the same on the whole range
        if at.kind == "ind" and at.args[0].kind in ("lt", "le"):
            r = _whole_range(at.args[0], vid, hi)
            if r is not None:
                return ring.bigsum(hi, mono1(get_atom(vid)), Poly(
                    {m[:j] + m[j + 1:]: 1})) if r else ZERO
    # isolated index: I(v == e)
    for j, (a, e) in enumerate(m):
        at = get_atom(a)
        if at.kind == "ind" and at.args[0].kind == "eq":
            p = at.args[0].args[0]
            s = solve_lin(p, vid)
            if s is not None:
                rest = Poly({m[:j] + m[j + 1:]: 1})
                g = ring.indicator(f_and(le0(-s), lt0(s - hi)))
                if Path_decided(f_and(le0(-s), lt0(s - hi))):
                    g = ONE
                if not s.is_integer():
                    return None
                return g * ring.subst(rest, {vid: s})
    # sum over k of a sum of products of transforms: other order (finite sums)
    if len(m) == 1 and m[0][1] == 1 and get_atom(m[0][0]).kind == "Sum":
        h2, b2, v2 = get_atom(m[0][0]).args
        if vid not in h2.deps and len(b2.t) == 1:
            (m2,) = b2.t
            if sum(e for _, e in m2) == 2 and all(
                    get_atom(a).kind == "app" and
                    get_atom(a).args[0] == "fft" and
                    get_atom(a).args[2] == hi and
                    get_atom(a).args[4] == mono1(get_atom(vid))
                    for a, e in m2):
                j = fresh_index(h2)
                b3 = ring.subst(b2, {v2: j})
                k = fresh_index(hi)
                return ring.bigsum(h2, j, ring.bigsum(
                    hi, k, ring.subst(b3, {vid: k})))
    # phases and transforms
    ffts = []
    ph = None
    others = False
    for a, e in m:
        at = get_atom(a)
        if at.kind == "app" and at.args[0] == "fft" and e in (1, 2):
            ffts += [at] * e
        elif at.kind == "E" and e == 1:
            ph = at
        else:
            others = True
    v = mono1(get_atom(vid))
    if ffts and not others and all(
            f.args[2] == hi and f.args[4] == v and
            vid not in f.args[3].deps for f in ffts):
        if len(ffts) == 1 and not ffts[0].args[1]:
            # sum_k FFT[x](k) e^{2 pi i k w / N} = N x(w mod N)
            w = None
            if ph is None:
                w = ZERO
            else:
                c = ph.args[0] * ring.inv(v)
                if vid not in c.deps:
                    w = c * hi
            if w is not None and w.is_integer():
                return hi * ffts[0].args[3].at(w - hi * ring.fdiv(w, hi))
        if len(ffts) == 2 and ph is None and \
                ffts[0].args[1] != ffts[1].args[1]:
            x, y = ffts
            if x.args[1]:
                x, y = y, x
            k = fresh_index(hi)
            return hi * ring.bigsum(hi, k, x.args[3].at(k) * ring.conj(
                y.args[3].at(k)))
    # sum of a pure phase e^{2 pi i v w / N}, 0 <= w < N
    if ph is not None and len(m) == 1:
        c = ph.args[0] * ring.inv(v)
        if vid not in c.deps:
            w = c * hi
            if w.is_integer():
                return hi * ring.indicator(eq0(w - hi * ring.fdiv(w, hi)))
    # cyclic shifts
    if any(get_atom(a).kind in ("app", "E", "fdiv") for a, _ in m):
        r = unshift(b, vid, hi)
        if r is not None and r[0] != b:
            k = fresh_index(hi)
            return ring.bigsum(hi, k, ring.subst(r[0], {vid: k}))
    return None


def Path_decided(f):
    from .sym import Path
    p = Path.cur
    if p is None:
        return f is TRUE
    return form.entails(p.facts, f, 1000) is True


ring.SUM_RULES.append(_sum_rules)


def solve_lin(p, vid):
    """p == 0 solved for v (coefficient +-1, linear) -> Poly or None"""
    c = p.t.get(((vid, 1),))
    if c not in (1, -1):
        return None
    rest = Poly({m: k for m, k in p.t.items() if m != ((vid, 1),)})
    if vid in rest.deps:
        return None
    return -rest if c == 1 else rest


# ---------------------------------------------------------------- helpers
def norm_axis(axis, nd):
    if isinstance(axis, S):
        axis = axis.__index__()
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise ValueError("axis out of bounds")
    return axis


def sum_over(fn, dim):
    """sum of fn(token) -> Poly over the axis"""
    n = dim.rng()
    if not dim.filtered and n.is_const() and n.const() <= 12:
        out = ZERO
        for i in range(int(n.const())):
            out = out + fn(P(i))
        return out
    if dim.cuts is not None and not dim.filtered:
        out = ZERO
        for a, b in zip(dim.cuts, dim.cuts[1:]):
            k = fresh_index(b - a)
            out = out + ring.bigsum(b - a, k, fn(k + a))
        return out
    k = fresh_index(n)
    body = fn(k)
    if dim.filtered:
        body = ring.indicator(dim.cond(k)) * body
    return ring.bigsum(n, k, body)


def reduce_axes(a, axis, keepdims, f, dt=None):
    """f(fn1d over axis, dims) -> scalar"""
    a = as_arr(a)
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = [norm_axis(x, a.ndim) for x in axis]
    else:
        axes = [norm_axis(axis, a.ndim)]
    fn = a.snap()
    rest = [j for j in range(a.ndim) if j not in axes]
    adims = [a.dims[j] for j in axes]

    def val(ridx):
        def at(aidx):
            full = [None] * a.ndim
            for j, x in zip(rest, ridx):
                full[j] = x
            for j, x in zip(axes, aidx):
                full[j] = x
            return fn(tuple(full))
        return f(at, adims)
    if not rest and not keepdims:
        return val(())
    if keepdims:
        dims = [Dim(ONE) if j in axes else a.dims[j] for j in range(a.ndim)]
        return SymArr.new(dims, lambda idx: val(tuple(
            idx[j] for j in rest)), dt or a._dt)
    return SymArr.new([a.dims[j] for j in rest], val, dt or a._dt)


def nested_sum(at, dims, g):
    def go(i, idx):
        if i == len(dims):
            return g(at(tuple(idx)))
        return sum_over(lambda k: go(i + 1, idx + [k]), dims[i])
    return go(0, [])


def elem_p(x):
    if isinstance(x, B):
        return ring.indicator(x.f)
    return to_S(x).fin()


def np_sum(a, axis=None, dtype=None, keepdims=False, **kw):
    if kw:
        raise Unsupported("sum kwargs %r" % list(kw))
    used("sum")
    if isinstance(a, (S, B, int, float)):
        return to_S(a)
    a = as_arr(a)
    return reduce_axes(a, axis, keepdims, lambda at, dims: S(
        nested_sum(at, dims, elem_p)), "i" if a._dt == "b" else None)


def count(dims):
    n = ONE
    for d in dims:
        n = n * d.n
    return n


def np_mean(a, axis=None, dtype=None, keepdims=False):
    used("mean")
    return reduce_axes(a, axis, keepdims, lambda at, dims: S(
        nested_sum(at, dims, elem_p) * ring.inv(count(dims)), isint=False,
        nanc=empty(dims)),
        None if as_arr(a)._dt == "c" else "f")


def empty(dims):
    """condition under which an average has no terms (NaN)"""
    n = count(dims)
    return None if known_pos(n) else f_not(lt0(-n))


def _var(at, dims, ddof):
    n = count(dims)
    m = nested_sum(at, dims, elem_p) * ring.inv(n)

    def dev(x):
        d = elem_p(x) - m
        return d * ring.conj(d)
    return nested_sum(at, dims, dev) * ring.inv(n - P(ddof))


def np_var(a, axis=None, ddof=0, keepdims=False):
    used("var")
    return reduce_axes(a, axis, keepdims,
                       lambda at, dims: S(_var(at, dims, ddof),
                                          nanc=empty(dims)), "f")


def np_corrcoef(x, y=None, rowvar=True, **kw):
    """Pearson correlation of the rows"""
    used("corrcoef")
    x = as_arr(x)
    if y is not None or kw or rowvar is not True or x.ndim != 2:
        raise Unsupported("corrcoef")
    d = x.dims[1]
    fn = x.snap()
    inv_n = ring.inv(d.n)

    def row(i):
        m = sum_over(lambda k: elem_p(fn((i, k))), d) * inv_n
        return lambda k: elem_p(fn((i, k))) - m

    def val(idx):
        p, q = row(idx[0]), row(idx[1])
        c = sum_over(lambda k: p(k) * q(k), d)
        vp = sum_over(lambda k: p(k) * p(k), d)
        vq = sum_over(lambda k: q(k) * q(k), d)
        return S(c * ring.inv(ring.sqrt(vp * vq)), isint=False)
    return SymArr.new([x.dims[0], x.dims[0]], val, "f")


def np_cov(x, y=None, rowvar=True, **kw):
    """covariance of the rows (normalised by n - 1)"""
    used("cov")
    x = as_arr(x)
    if y is not None or kw or rowvar is not True or x.ndim != 2:
        raise Unsupported("cov")
    d = x.dims[1]
    n = count([d])
    fn = x.snap()

    def row(i):
        m = sum_over(lambda k: elem_p(fn((i, k))), d) * ring.inv(n)
        return lambda k: elem_p(fn((i, k))) - m

    def val(idx):
        p, q = row(idx[0]), row(idx[1])
        return S(sum_over(lambda k: p(k) * q(k), d) * ring.inv(n - P(1)),
                 isint=False)
    return SymArr.new([x.dims[0], x.dims[0]], val, "f")


def np_std(a, axis=None, ddof=0, keepdims=False):
    used("std")
    return reduce_axes(a, axis, keepdims,
                       lambda at, dims: S(ring.sqrt(_var(at, dims, ddof))),
                       "f")


def np_dot(a, b):
    used("dot")
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    af, bf = a.snap(), b.snap()
    da = a.dims[-1]
    db = b.dims[-1] if b.ndim == 1 else b.dims[-2]
    if not same_dim(da, db):
        if da.filtered or db.filtered:
            raise Unsupported("dot of compressed arrays")
        if not path().decide(eq0(da.n - db.n)):
            raise ValueError("shapes not aligned")
    ra = a.dims[:-1]
    rb = () if b.ndim == 1 else b.dims[:-2] + b.dims[-1:]

    def val(idx):
        ia = tuple(idx[:len(ra)])
        ib = tuple(idx[len(ra):])

        def body(k):
            x = af(ia + (k,))
            y = bf((k,)) if b.ndim == 1 else bf(ib[:-1] + (k,) + ib[-1:])
            return (to_S(x) * to_S(y)).fin()
        return S(sum_over(body, da))
    dims = tuple(ra) + tuple(rb)
    dt = promote({a._dt, b._dt})
    if not dims:
        return val(())
    return SymArr.new(dims, val, dt)


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return np_dot(a, b)
    if a.ndim < 2 or b.ndim < 2:
        raise Unsupported("matmul of a vector and stacked matrices")
    if not same_dim(a.dims[-1], b.dims[-2]) and not path().decide(
            eq0(a.dims[-1].n - b.dims[-2].n)):
        raise ValueError("matmul: dimension mismatch")
    return np_sum(a[..., None] * b[..., None, :, :], axis=-2)


def np_einsum(spec, *ops):
    used("einsum")
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        from collections import Counter
        c = Counter(ins.replace(",", ""))
        out = "".join(sorted(x for x in c if c[x] == 1))
    ins = ins.split(",")
    arrs = [as_arr(o) for o in ops]
    dims = {}
    for lab, a in zip(ins, arrs):
        if len(lab) != a.ndim:
            raise ValueError("einsum operand dimensions")
        for ch, d in zip(lab, a.dims):
            if ch in dims:
                if not same_dim(dims[ch], d):
                    if not path().decide(eq0(dims[ch].n - d.n)):
                        raise ValueError("einsum dimension mismatch")
            else:
                dims[ch] = d
    snaps = [a.snap() for a in arrs]
    red = [ch for ch in dims if ch not in out]

    def val(idx):
        env = dict(zip(out, idx))

        def go(i, env):
            if i == len(red):
                r = S(ONE)
                for lab, f in zip(ins, snaps):
                    r = r * to_S(f(tuple(env[c] for c in lab)))
                return r.fin()
            return sum_over(lambda k: go(i + 1, {**env, red[i]: k}),
                            dims[red[i]])
        return S(go(0, env))
    if not out:
        return val(())
    return SymArr.new([dims[c] for c in out], val,
                      promote({a._dt for a in arrs}))


# ---------------------------------------------------------------- extrema
def _ext(at, dims, kind, want):
    """argmin / argmax over one axis, or min / max value"""
    pth = path()
    if len(dims) != 1:
        raise Unsupported("extremum over several axes")
    d = dims[0]
    n = d.rng()
    if not d.filtered and n.is_const():
        c = int(n.const())
        if c == 0:
            raise ValueError("zero-size array to reduction operation")
        vals = [to_S(at((P(i),))) for i in range(c)]
        bi, bv = P(0), vals[0]
        for i in range(1, c):
            v = vals[i]
            better = lt0(v.fin() - bv.fin()) if kind == "min" else \
                lt0(bv.fin() - v.fin())
            g = ring.indicator(better)
            bi = g * P(i) + (ONE - g) * bi
            bv = ite(better, v, bv)
        return bv if want == "val" else S(bi, isint=True)
    if not pth.dry:
        if not nonempty(d):
            raise ValueError("attempt to get argmin of an empty sequence")
    # elements possibly +inf: for argmin treat inf entries as excluded
    lam = Lam.of(lambda k: to_S(at((k,))).fin(), n)
    cond = Lam.of_form(d.cond)
    t = ring.app("arg" + kind, [n, lam, cond], integer=True, nonneg=True)
    key = ("ext", t)
    if key not in pth.labels:
        pth.labels[key] = True
        pth.add(d.guard(t))
        pth.terms.append(t)
        vt = lam.at(t)
        if kind == "min":
            mk = lambda j: form.f_imp(d.guard(j), le0(vt - lam.at(j)))
        else:
            mk = lambda j: form.f_imp(d.guard(j), le0(lam.at(j) - vt))
        pth.foralls.append((mk, "arg" + kind))
    if want == "val":
        return to_S(at((t,)))
    if d.filtered:
        return Pos(d, t)
    return S(t, isint=True)


def _posarr(dims, val, d):
    """array of positions in compressed axis d"""
    a = SymArr.new(dims, lambda idx: S(val(idx).tok, isint=True), "i")
    a.posdim = d
    return a


def np_arg(kind):
    def f(a, axis=None, **kw):
        used("arg" + kind)
        a = as_arr(a)
        if a.ndim == 0:
            return 0
        if axis is None and a.ndim > 1:
            a = np_ravel(a)
        ax = norm_axis(-1 if axis is None else axis, a.ndim)
        if a.ndim == 1:
            fn = a.snap()
            return _ext(lambda i: fn(i), [a.dims[0]], kind, "arg")
        d = a.dims[ax]
        fn = a.snap()
        rest = [x for j, x in enumerate(a.dims) if j != ax]
        if not nonempty(d):
            raise ValueError("attempt to get argmin of an empty sequence")

        def val(idx):
            return _ext(lambda i: fn(tuple(idx[:ax]) + i + tuple(idx[ax:])),
                        [d], kind, "arg")
        if d.filtered:
            return _posarr(rest, val, d)
        return SymArr.new(rest, val, "i")
    return f


def np_ext(kind):
    def f(a, axis=None, keepdims=False, **kw):
        used(kind)
        if isinstance(a, (S, int, float)):
            return a
        a = as_arr(a)
        if a.ndim == 0:
            return a.elem(())
        if axis is None and a.ndim > 1:
            flat = NP.ravel(a)
            return f(flat)
        return reduce_axes(a, -1 if axis is None else axis, keepdims,
                           lambda at, dims: _ext(at, dims, kind, "val"))
    return f


def _quant(kind):
    def f(a, axis=None, keepdims=False, **kw):
        used(kind)
        if isinstance(a, (bool,)):
            return a
        if isinstance(a, (B, S, int, float)):
            return B(form_of(a))
        a = as_arr(a)
        if a.ndim == 0:
            return B(form_of(a.elem(())))

        def red(at, dims):
            if all((not d.filtered) and d.n.is_const() and d.n.const() <= 12
                   for d in dims):
                fs = []

                def go(i, idx):
                    if i == len(dims):
                        fs.append(form_of(at(tuple(idx))))
                        return
                    for j in range(int(dims[i].n.const())):
                        go(i + 1, idx + [P(j)])
                go(0, [])
                return B(f_and(*fs) if kind == "all" else f_or(*fs))
            return B(quant_form(at, dims, kind))
        return reduce_axes(a, axis, keepdims, red, "b")
    return f


def quant_form(at, dims, kind):
    """formula atom for exists/forall over axes, with lazily recorded
    meaning"""
    neg = kind == "any"

    def body(idx):
        g = f_and(*[d.guard(i) for d, i in zip(dims, idx)])
        f = form_of(at(tuple(idx)))
        return g, f
    ks = [fresh_index(d.rng()) for d in dims]
    g, f = body(ks)
    if f is TRUE and kind == "all":
        return TRUE
    if f is FALSE and kind == "any":
        return FALSE
    pf = path().facts
    if kind == "all" and form.entails(pf + [g], f, 1000) is True:
        return TRUE
    if kind == "any" and form.entails(pf + [g], f_not(f), 1000) is True:
        return FALSE
    allf = form.forall(ks, g, f if kind == "all" else f_not(f))
    return allf if kind == "all" else f_not(allf)


# ---------------------------------------------------------------- creation
def shape_dims(s):
    if isinstance(s, (tuple, list)):
        return [Dim(dimlen(x)) for x in s]
    if isinstance(s, SymArr):
        raise Unsupported("array as shape")
    return [Dim(dimlen(s))]


def const_arr(shape, v, dt):
    return SymArr.new(shape_dims(shape), lambda idx: v, dt)


def _cv(v, dt):
    if dt == "b":
        return B(f_bool(bool(v)))
    return S(P(v), isint=(dt == "i"))


def full_like(a, v, dtype):
    a = as_arr(a)
    dt = a._dt if dtype is None else dtype_kind(dtype)
    if a.ndim == 0:
        return _cv(v, dt)
    return SymArr.new(a.dims, lambda idx: _cv(v, dt), dt)


def np_full(shape, v, dtype=None):
    if isinstance(v, float) and v != v:
        vv = S(ZERO, nanc=TRUE)
    else:
        vv = v if isinstance(v, (S, B)) else (
            B(f_bool(v)) if isinstance(v, bool) else to_S(v))
    dt = dtype_kind(dtype) if dtype is not None else (
        "b" if isinstance(vv, B) else ("i" if vv.is_int() else "f"))
    if dt == "b":
        vv = _b(vv)
    return const_arr(shape, vv, dt)


def np_arange(*a, dtype=None):
    used("arange")
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop = a
        step = 1
    else:
        start, stop, step = a
    start, stop, step = to_S(start), to_S(stop), to_S(step)
    p0, p1, st = start.fin(), stop.fin(), step.fin()
    allint = start.is_int() and stop.is_int() and step.is_int()
    if st == ONE and (p1 - p0).is_integer():
        ln = p1 - p0
        if not path().decide(le0(-ln)):
            ln = ZERO
    elif allint and st == P(-1):
        ln = p0 - p1
        if not path().decide(le0(-ln)):
            ln = ZERO
    elif allint and st.is_const() and st.const() > 0:
        ln = ring.fdiv(p1 - p0 + st - 1, st)
        if not path().decide(le0(-ln)):
            ln = ZERO
    else:
        q = (p1 - p0) * ring.inv(st)
        if q.is_integer():
            # ceil of an exact quotient; floating-point arange may add one
            # element: not modelled
            raise Unsupported("floating-point arange step")
        raise Unsupported("floating-point arange")
    dt = "i" if allint else "f"
    if dtype is not None:
        dt = dtype_kind(dtype)
    return SymArr.new([Dim(ln)], lambda idx: S(
        p0 + idx[0] * st, isint=(dt == "i")), dt)


def np_linspace(a, b, num=50, endpoint=True, **kw):
    used("linspace")
    n = dimlen(num)
    a, b = to_S(a).fin(), to_S(b).fin()
    den = n - 1 if endpoint is True or (endpoint is not False and
                                        bool(endpoint)) else n
    return SymArr.new([Dim(n)], lambda idx: S(
        a + (b - a) * idx[0] * ring.inv(den), isint=False), "f")


def np_array(x, dtype=None, **kw):
    from .rt import SymList
    if isinstance(x, SymArr):
        r = x.copy()
        return astype(r, dtype) if dtype is not None else r
    if isinstance(x, SymList):
        r = x.to_array()
        return astype(r, dtype) if dtype is not None else r
    if isinstance(x, (list, tuple)):
        items = [np_array(y) if isinstance(y, (list, tuple)) or
                 isinstance(y, SymList) else y for y in x]
        if not items:
            return SymArr.new([Dim(ZERO)], lambda idx: S(ZERO), "f")
        if any(isinstance(y, str) or y is None for y in items):
            raise Unsupported("object array")
        return stack(items, 0) if dtype is None else astype(
            stack(items, 0), dtype)
    r = as_arr(x)
    return astype(r, dtype) if dtype is not None else r


def stack(items, axis=0):
    arrs = [as_arr(y) for y in items]
    nd = arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all input arrays must have the same shape")
        for d, e in zip(a.dims, arrs[0].dims):
            if not same_dim(d, e):
                if d.filtered or e.filtered or not path().decide(
                        eq0(d.n - e.n)):
                    raise ValueError("all input arrays must have the same "
                                     "shape")
    if axis < 0:
        axis += nd + 1
    snaps = [a.snap() for a in arrs]
    dims = list(arrs[0].dims)
    dims.insert(axis, Dim(P(len(arrs))))
    dt = promote({a._dt for a in arrs})

    def fn(idx):
        i = idx[axis]
        r = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        if i.is_const():
            return snaps[int(i.const())](r)
        out = snaps[-1](r)
        for j in range(len(snaps) - 2, -1, -1):
            out = ite(eq0(i - P(j)), snaps[j](r), out)
        return out
    return SymArr.new(dims, fn, dt)


def concat(arrs, axis=0):
    used("concatenate")
    from .rt import SymList
    if isinstance(arrs, SymList):
        raise Unsupported("concatenate of a symbolic list")
    arrs = [as_arr(a) for a in arrs]
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = norm_axis(axis, nd)
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for j in range(nd):
            if j != ax and not same_dim(a.dims[j], arrs[0].dims[j]):
                if not path().decide(eq0(a.dims[j].n - arrs[0].dims[j].n)):
                    raise ValueError("all the input array dimensions except "
                                     "for the concatenation axis must match "
                                     "exactly")
    if any(a.dims[ax].filtered for a in arrs):
        raise Unsupported("concatenate of compressed arrays")
    arrs2 = [a for a in arrs if not a.dims[ax].n.is_zero()] or arrs[:1]
    snaps = [a.snap() for a in arrs2]
    offs = [ZERO]
    for a in arrs2:
        offs.append(offs[-1] + a.dims[ax].n)

    def fn(idx):
        i = idx[ax]

        def at(j):
            return snaps[j](tuple(idx[:ax]) + (i - offs[j],) +
                            tuple(idx[ax + 1:]))
        out = None
        for j in range(len(snaps) - 1, -1, -1):
            out = at(j) if out is None else ite(lt0(i - offs[j + 1]), at(j),
                                                out)
        return out
    dims = list(arrs[0].dims)
    dims[ax] = Dim(offs[-1], cuts=offs if len(offs) > 2 else None)
    return SymArr.new(dims, fn, promote({a._dt for a in arrs}))


class R_:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                if isinstance(k.step, complex):
                    raise Unsupported("r_ complex step")
                parts.append(np_arange(0 if k.start is None else k.start,
                                       k.stop,
                                       1 if k.step is None else k.step))
            elif isinstance(k, str):
                raise Unsupported("r_ string")
            else:
                a = as_arr(k)
                parts.append(a if a.ndim else stack([a.elem(())]))
        return concat(parts)


def astype(a, t):
    if isinstance(a, (S, int, float)):
        k = dtype_kind(t)
        if k == "i":
            return s_trunc(to_S(a))
        return to_S(a)
    k = dtype_kind(t)
    if k == a._dt:
        return a.copy()
    fn = a.snap()
    if k in ("f", "c"):
        def g(idx):
            v = to_S(fn(idx))
            return S(v.p, v.infc, False, v.nanc)
        if a._dt == "c" and k == "f":
            return SymArr.new(a.dims, lambda i: S(ring.re(
                to_S(fn(i)).fin())), "f")
        return SymArr.new(a.dims, g, k)
    if k == "b":
        return SymArr.new(a.dims, lambda i: B(form_of(fn(i))), "b")
    if k == "i":
        return SymArr.new(a.dims, lambda i: s_trunc(to_S(fn(i))), "i")
    raise Unsupported("astype %r" % (t,))


# ---------------------------------------------------------------- DFT
def split_dep(p, vid):
    out = []
    for m, c in p.t.items():
        co, dep = [], []
        for a, e in m:
            (dep if vid in get_atom(a).deps else co).append((a, e))
        out.append((Poly({tuple(co): c}), Poly({tuple(dep): 1})))
    return out


def dft_value(body, vid, n, k):
    """sum_{v<n} body(v) e^{-2 pi i k v / n} for 0 <= k < n"""
    v = mono1(get_atom(vid))
    out = ZERO
    for co, dep in split_dep(body, vid):
        if dep == ONE:
            out = out + co * n * ring.indicator(
                eq0(k - n * ring.fdiv(k, n)))
            continue
        ph = ONE
        u = unshift(dep, vid, n)
        if u is not None:
            g, c = u
            # sum_v g((v+c) mod n) w^{-kv} = e^{2 pi i k c/n} DFT[g](k)
            ph = ring.phase(k * c * ring.inv(n))
            if g != dep:
                out = out + co * ph * dft_value(g, vid, n, k)
                continue
        out = out + co * _dft_mono(dep, vid, n, k)
    return out


def _dft_mono(dep, vid, n, k):
    v = mono1(get_atom(vid))
    (m,) = dep.t
    # pure phase / single inverse-transform sum
    if len(m) == 1 and m[0][1] == 1:
        at = get_atom(m[0][0])
        if at.kind == "Sum" and at.args[0] == n:
            b = at.args[1]
            bv = at.args[2]
            (bm,) = b.t
            es = [(a, e) for a, e in bm if vid in get_atom(a).deps]
            if len(es) == 1 and get_atom(es[0][0]).kind == "E" and \
                    es[0][1] == 1:
                bvp = mono1(get_atom(bv))
                th = get_atom(es[0][0]).args[0]
                th0 = ring.subst(th, {vid: ZERO})
                w = (th - th0) * n * ring.inv(v)
                # turns = v * w(bv) / n (+ const part dropped)
                if vid not in w.deps:
                    d = w - bvp
                    rest = Poly({tuple(x for x in bm if x != es[0]): 1}) * \
                        ring.phase(th0)
                    if bv not in d.deps and d.is_integer():
                        kk = k - d
                        kk = kk - n * ring.fdiv(kk, n)
                        return n * ring.subst(rest, {bv: kk})
                    d = w + bvp
                    if bv not in d.deps and d.is_integer():
                        kk = d - k
                        kk = kk - n * ring.fdiv(kk, n)
                        return n * ring.subst(rest, {bv: kk})
        if at.kind == "ind" and at.args[0].kind == "eq":
            s = solve_lin(at.args[0].args[0], vid)
            if s is not None:
                return ring.phase(-k * s * ring.inv(n))
    lam = Lam.of(lambda j: ring.subst(dep, {vid: j}), n)
    if DFT_EXPLICIT[0]:
        j = fresh_index(n)
        return ring.bigsum(n, j, lam.at(j) * ring.phase(
            -k * j * ring.inv(n)))
    return ring.app("fft", [n, lam, k], real=False)


DFT_EXPLICIT = [False]


def np_fft(a, n=None, axis=-1, **kw):
    used("fft.fft (DFT definition)")
    a = as_arr(a)
    if n is not None:
        raise Unsupported("fft with n")
    ax = norm_axis(axis, a.ndim)
    d = a.dims[ax]
    if d.filtered:
        raise Unsupported("fft of a compressed array")
    fn = a.snap()

    def val(idx):
        j = fresh_index(d.n)
        body = to_S(fn(tuple(idx[:ax]) + (j,) + tuple(idx[ax + 1:]))).fin()
        return S(dft_value(body, ring.atom_of(j).id, d.n, idx[ax]))
    return SymArr.new(a.dims, val, "c")


def np_ifft(a, n=None, axis=-1, **kw):
    used("fft.ifft (DFT definition)")
    a = as_arr(a)
    if n is not None:
        raise Unsupported("ifft with n")
    ax = norm_axis(axis, a.ndim)
    d = a.dims[ax]
    if d.filtered:
        raise Unsupported("ifft of a compressed array")
    fn = a.snap()

    def val(idx):
        t = idx[ax] * ring.inv(d.n)

        def body(k):
            x = to_S(fn(tuple(idx[:ax]) + (k,) + tuple(idx[ax + 1:]))).fin()
            return x * ring.phase(k * t)
        return S(sum_over(body, d) * ring.inv(d.n))
    return SymArr.new(a.dims, val, "c")


def np_rfft(a, n=None, axis=-1, **kw):
    f = np_fft(a, n, axis)
    ax = norm_axis(axis, f.ndim)
    n0 = f.dims[ax].n
    fn = f.snap()
    dims = list(f.dims)
    dims[ax] = Dim(ring.fdiv(n0, P(2)) + 1)
    return SymArr.new(dims, fn, "c")


def np_irfft(a, n=None, axis=-1, **kw):
    """real inverse transform; imaginary parts of the DC and Nyquist bins are
    ignored"""
    used("fft.irfft (DFT definition)")
    a = as_arr(a)
    ax = norm_axis(axis, a.ndim)
    d = a.dims[ax]
    if d.filtered:
        raise Unsupported("irfft of compressed")
    nn = (d.n - 1).scale(2) if n is None else dimlen(n)
    need = ring.fdiv(nn, P(2)) + 1
    if not path().decide(eq0(need - d.n)):
        raise Unsupported("irfft with a length change")
    fn = a.snap()
    dims = list(a.dims)
    dims[ax] = Dim(nn)

    def val(idx):
        t = idx[ax] * ring.inv(nn)

        def at(k):
            return to_S(fn(tuple(idx[:ax]) + (k,) +
                           tuple(idx[ax + 1:]))).fin()

        def body(k):
            x = at(k) * ring.phase(k * t)
            w = ring.indicator(f_or(eq0(k), eq0(k.scale(2) - nn)))
            return ring.re(x) * (P(2) - w)
        return S(sum_over(body, d) * ring.inv(nn))
    return SymArr.new(dims, val, "f")


def np_fftfreq(n, d=1.0, **kw):
    used("fft.fftfreq")
    n = dimlen(n)
    d = to_S(d).fin()
    h = ring.fdiv(n - 1, P(2)) + 1      # number of non-negative entries

    def val(idx):
        k = idx[0]
        neg = ring.indicator(f_not(lt0(k - h)))
        return S((k - n * neg) * ring.inv(n * d), isint=False)
    return SymArr.new([Dim(n)], val, "f")


def np_rfftfreq(n, d=1.0, **kw):
    used("fft.rfftfreq")
    n = dimlen(n)
    d = to_S(d).fin()
    return SymArr.new([Dim(ring.fdiv(n, P(2)) + 1)], lambda idx: S(
        idx[0] * ring.inv(n * d), isint=False), "f")


# ---------------------------------------------------------------- the rest
def un(f, dt=None, name=None):
    def g(x, **kw):
        if kw:
            raise Unsupported("keyword %r" % list(kw))
        if isinstance(x, (SymArr, list, tuple)):
            return elementwise(lambda a: f(to_S(a)), [as_arr(x)], dt)
        return f(to_S(x))
    return g


def s_exp(a):
    return S(ring.cexp(a.fin()), isint=False)


def uf1(name, **kw):
    def f(a):
        return S(ring.app(name, [a.fin()], **kw), isint=False)
    return f


def s_log(a):
    p = a.fin()
    if p == ONE:
        return S(ZERO)
    return S(ring.app("log", [p]), isint=False)


def np_where(c, *ab):
    used("where")
    if not ab:
        c = as_arr(c)
        if c.ndim != 1:
            raise Unsupported("where() on %d-d" % c.ndim)
        return (np_flatnonzero(c),)
    a, b = ab
    if isinstance(c, (B, bool)):
        if not isinstance(a, (SymArr, list)) and not isinstance(
                b, (SymArr, list)):
            return ite(form_of(c), a, b)
        c = as_arr(c)
    return elementwise(lambda c, a, b: ite(form_of(c), _mix(a), _mix(b)),
                       [c, a, b], promote({x._dt for x in map(as_arr,
                                                              (a, b))}))


def _mix(x):
    return x if isinstance(x, (S, B)) else (
        B(f_bool(x)) if isinstance(x, bool) else to_S(x))


def np_flatnonzero(c):
    used("flatnonzero")
    c = as_arr(c)
    if c.ndim != 1:
        raise Unsupported("flatnonzero of %d-d" % c.ndim)
    d = c.dims[0]
    idx = SymArr.new([Dim(d.n)] if not d.filtered else [d],
                     lambda i: S(i[0], isint=True), "i")
    if d.filtered:
        raise Unsupported("flatnonzero of a compressed array")
    if c._dt != "b":
        c = c != 0
    if d.n.is_const() and d.n.const() <= 8:
        cells = [form_of(c[j]) for j in range(int(d.n.const()))]
        if all(x is TRUE or x is FALSE for x in cells):
            on = [j for j, x in enumerate(cells) if x is TRUE]
            if not on:
                return SymArr.new([Dim(ZERO)],
                                  lambda i: S(ZERO, isint=True), "i")
            return NP.array(on)
    return take(idx, c, 0)


def np_roll(a, shift, axis=None):
    used("roll")
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flat roll")
        axis = 0
    ax = norm_axis(axis, a.ndim)
    d = a.dims[ax]
    if d.filtered:
        raise Unsupported("roll of a compressed array")
    s = to_S(shift).fin()
    if not s.is_integer():
        raise Unsupported("roll by a non-integer")
    fn = a.snap()

    def val(idx):
        x = idx[ax] - s
        x = x - d.n * ring.fdiv(x, d.n)
        return fn(tuple(idx[:ax]) + (x,) + tuple(idx[ax + 1:]))
    return SymArr.new(a.dims, val, a._dt)


def _np_shift(inverse):
    def shifted(x, axes=None):
        a = as_arr(x)
        if axes is None:
            axes = tuple(range(a.ndim))
        elif not isinstance(axes, (list, tuple)):
            axes = (axes,)
        for ax in axes:
            h = ring.fdiv(a.dims[norm_axis(ax, a.ndim)].n, P(2))
            a = np_roll(a, S(-h if inverse else h, isint=True), axis=ax)
        return a
    return shifted


def np_flip(a, axis=None):
    a = as_arr(a)
    axes = list(range(a.ndim)) if axis is None else [norm_axis(axis, a.ndim)]
    key = tuple(slice(None, None, -1) if j in axes else slice(None)
                for j in range(a.ndim))
    return a[key]


def np_reshape(a, *shape, order=None):
    a = as_arr(a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if any(d.filtered for d in a.dims):
        if tuple(shape) == (-1,) and a.ndim == 1:
            return a
        raise Unsupported("reshape of compressed")
    # supported: dropping/adding unit axes, splitting/merging one axis
    tot = ONE
    for d in a.dims:
        tot = tot * d.n
    dims = []
    unk = None
    rest = ONE
    for j, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            unk = j
            dims.append(None)
        else:
            p = dimlen(s)
            dims.append(p)
            rest = rest * p
    if unk is not None:
        q = tot * ring.inv(rest)
        if not q.is_integer():
            # need divisibility
            q = ring.fdiv(tot, rest)
            if not path().decide(eq0(q * rest - tot)):
                raise ValueError("cannot reshape array")
        dims[unk] = q
    else:
        if rest != tot and not path().decide(eq0(rest - tot)):
            raise ValueError("cannot reshape array")
    src = [d.n for d in a.dims]
    fn = a.snap()
    s1 = [p for p in src if not is_one(p)]
    d1 = [p for p in dims if not is_one(p)]
    if s1 == d1:
        def val(idx):
            it = [i for i, p in zip(idx, dims) if not is_one(p)]
            out = []
            for p in src:
                out.append(ZERO if is_one(p) else it.pop(0))
            return fn(tuple(out))
        return SymArr.new([Dim(p) for p in dims], val, a._dt)

    # general row-major map through the flat index
    def val(idx):
        flat = ZERO
        for i, p in zip(idx, dims):
            flat = flat * p + i
        out = []
        for p in reversed(src[1:]):
            q = ring.fdiv(flat, p)
            out.append(flat - q * p)
            flat = q
        out.append(flat)
        return fn(tuple(reversed(out)))
    return SymArr.new([Dim(p) for p in dims], val, a._dt)


def np_ravel(a, order=None):
    a = as_arr(a)
    if a.ndim == 1:
        return a
    if sum(0 if is_one(d.n) else 1 for d in a.dims) <= 1:
        for j, d in enumerate(a.dims):
            if not is_one(d.n):
                key = tuple(slice(None) if i == j else 0
                            for i in range(a.ndim))
                return a[key]
    return np_reshape(a, -1)


def np_transpose(a, axes=None):
    a = as_arr(a)
    n = a.ndim
    axes = list(range(n))[::-1] if axes is None else [
        norm_axis(x, n) for x in axes]
    fn = a.snap()
    invp = [axes.index(j) for j in range(n)]

    def val(idx):
        return fn(tuple(idx[invp[j]] for j in range(n)))
    return SymArr.new([a.dims[x] for x in axes], val, a._dt)


def np_swapaxes(a, i, j):
    a = as_arr(a)
    ax = list(range(a.ndim))
    i, j = norm_axis(i, a.ndim), norm_axis(j, a.ndim)
    ax[i], ax[j] = ax[j], ax[i]
    return np_transpose(a, ax)


def np_polyfit(x, y, deg, **kw):
    """the interpolating polynomial (as many points as coefficients)"""
    used("polyfit")
    x, y = as_arr(x), as_arr(y)
    if kw or not isinstance(deg, int) or x.ndim != 1 or y.ndim != 1 \
            or not x.dims[0].n.is_const() or not y.dims[0].n.is_const():
        raise Unsupported("np.polyfit")
    n, m = (int(z.dims[0].n.const()) for z in (x, y))
    if not n:
        raise TypeError("expected non-empty vector for x")
    if n != m:
        raise TypeError("expected x and y to have same length")
    if n != deg + 1 or n > 4:
        raise Unsupported("np.polyfit: least squares")
    xs, ys = [x[i] for i in range(n)], [y[i] for i in range(n)]
    out = [0] * n           # lowest power first
    for i in range(n):
        co, den = [1], 1
        for j in range(n):
            if j != i:
                co = [(co[k - 1] if k else 0) - (
                    xs[j] * co[k] if k < len(co) else 0)
                    for k in range(len(co) + 1)]
                den = den * (xs[i] - xs[j])
        out = [o + ys[i] * k / den for o, k in zip(out, co)]
    return NP.array(out[::-1])


class Poly1d:
    def __init__(self, c):
        c = as_arr(c)
        if c.ndim != 1 or not c.dims[0].n.is_const():
            raise Unsupported("np.poly1d")
        self.c = [c[i] for i in range(int(c.dims[0].n.const()))]

    def __call__(self, x):
        out = 0
        for k in self.c:
            out = out * x + k
        return out


def np_polyval(p, x):
    return Poly1d(p)(x)


def np_array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    for d, e in zip(a.dims, b.dims):
        if not same_dim(d, e) and not path().decide(eq0(d.n - e.n)):
            return False
    return NP.all(a == b)


def np_moveaxis(a, src, dst):
    a = as_arr(a)
    src, dst = ([norm_axis(x, a.ndim) for x in (
        s if isinstance(s, (list, tuple)) else [s])] for s in (src, dst))
    ax = [x for x in range(a.ndim) if x not in src]
    for d, x in sorted(zip(dst, src)):
        ax.insert(d, x)
    return np_transpose(a, ax)


def np_diag(a):
    a = as_arr(a)
    fn = a.snap()
    if a.ndim == 2:
        if not same_dim(a.dims[0], a.dims[1]):
            raise Unsupported("diag of a non-square matrix")
        return SymArr.new([a.dims[0]], lambda i: fn((i[0], i[0])), a._dt)
    if a.ndim == 1:
        return SymArr.new([a.dims[0], a.dims[0]], lambda i: ite(
            eq0(i[0] - i[1]), fn((i[0],)), S(ZERO)), a._dt)
    raise ValueError("Input must be 1- or 2-d.")


def np_eye(n, dtype=None):
    n = dimlen(n)
    return SymArr.new([Dim(n), Dim(n)], lambda i: S(ring.indicator(
        eq0(i[0] - i[1]))), "f")


def np_outer(a, b):
    a, b = as_arr(a), as_arr(b)
    return a[:, None] * b[None, :]


def np_diff(a, n=1, axis=-1):
    a = as_arr(a)
    if n != 1 or a.ndim != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def np_cumsum(a, axis=None):
    a = as_arr(a)
    if axis is None and a.ndim > 1:
        raise Unsupported("flat cumsum")
    ax = norm_axis(-1 if axis is None else axis, a.ndim)
    fn = a.snap()

    def val(idx):
        i = idx[ax]
        if i.is_const():
            out = ZERO
            for j in range(int(i.const()) + 1):
                out = out + elem_p(fn(tuple(idx[:ax]) + (P(j),) +
                                      tuple(idx[ax + 1:])))
            return S(out)
        k = fresh_index(i + 1)
        return S(ring.bigsum(i + 1, k, elem_p(fn(
            tuple(idx[:ax]) + (k,) + tuple(idx[ax + 1:])))))
    return SymArr.new(a.dims, val, a._dt)


def np_clip(a, lo, hi):
    def f(x):
        x = to_S(x)
        if lo is not None:
            x = ite((x < lo).f, to_S(lo), x)
        if hi is not None:
            x = ite((x > hi).f, to_S(hi), x)
        return x
    return elementwise(f, [a]) if isinstance(a, SymArr) else f(a)


def binm(f, dt=None):
    def g(a, b, **kw):
        if kw:
            raise Unsupported("keyword %r" % list(kw))
        if isinstance(a, (SymArr, list, tuple)) or isinstance(
                b, (SymArr, list, tuple)):
            return elementwise(f, [as_arr(a), as_arr(b)], dt)
        return f(a, b)
    return g


def np_isscalar(x):
    return isinstance(x, (S, B, int, float, complex, bool, str, Fraction))


def np_isnan(x):
    def f(s):
        s = to_S(s)
        return B(s.nanc if s.nanc is not None else FALSE)
    if isinstance(x, SymArr):
        if getattr(x, "posdim", None) is not None:
            return elementwise(lambda s: B(FALSE), [x], "b")
        return elementwise(f, [x], "b")
    if isinstance(x, Pos):
        return B(FALSE)
    if isinstance(x, (list, tuple)):
        return np_isnan(as_arr(x))
    return f(x)


def np_isinf(x):
    def f(s):
        s = to_S(s)
        return B(s.infc if s.infc is not None else FALSE)
    if isinstance(x, SymArr):
        return elementwise(f, [x], "b")
    return f(x)


def np_array_uf(name, nout=None, nonneg=False, axisaware=True):
    """uninterpreted functional of a 1-D array (median, percentile, ...)"""
    def f(a, *rest, axis=None, **kw):
        used(name + " (uninterpreted)")
        a = as_arr(a)
        extra = [to_S(r).fin() for r in rest if not isinstance(r, SymArr)]
        for k in sorted(kw):
            v = kw[k]
            if isinstance(v, (str, type(None), bool)):
                continue
            extra.append(to_S(v).fin())

        def red(at, dims):
            if len(dims) != 1:
                raise Unsupported(name + " over several axes")
            d = dims[0]
            lam = Lam.of(lambda k: to_S(at((k,))).fin(), d.rng())
            nm = name + "|" + "|".join("%s=%s" % (k, kw[k]) for k in
                                       sorted(kw) if isinstance(
                kw[k], (str, type(None), bool)))
            return S(ring.app(nm, [d.rng(), lam, Lam.of_form(d.cond)] + extra,
                              nonneg=nonneg))
        if a.ndim == 1:
            fn = a.snap()
            return red(fn, [a.dims[0]])
        return reduce_axes(a, axis, False, red)
    return f


def np_allclose(*a, **k):
    raise Unsupported("allclose")


def np_tile(a, reps):
    a = as_arr(a)
    if isinstance(reps, (int, S)):
        reps = (reps,)
    reps = list(reps)
    nd = max(a.ndim, len(reps))
    reps = [1] * (nd - len(reps)) + reps
    fn = a.snap()
    off = nd - a.ndim
    dims = []
    for j in range(nd):
        r = dimlen(reps[j])
        dims.append(Dim(r * (a.dims[j - off].n if j >= off else ONE)))

    def val(idx):
        out = []
        for j in range(off, nd):
            n = a.dims[j - off].n
            if is_one(n):
                out.append(ZERO)
            else:
                out.append(idx[j] - n * ring.fdiv(idx[j], n))
        return fn(tuple(out))
    return SymArr.new(dims, val, a._dt)


def np_repeat(a, n, axis=None):
    a = as_arr(a)
    if a.ndim == 0:
        v = a.elem(())
        return SymArr.new([Dim(dimlen(n))], lambda i: v, a._dt)
    if a.ndim != 1:
        raise Unsupported("repeat")
    r = dimlen(n)
    fn = a.snap()
    return SymArr.new([Dim(a.dims[0].n * r)], lambda i: fn(
        (ring.fdiv(i[0], r),)), a._dt)


def np_expand_dims(a, axis):
    a = as_arr(a)
    if axis < 0:
        axis += a.ndim + 1
    key = [slice(None)] * a.ndim
    key.insert(axis, None)
    return a[tuple(key)]


def np_squeeze(a, axis=None):
    if isinstance(a, (S, B)):
        return a
    a = as_arr(a)
    key = tuple(0 if is_one(d.n) and not d.filtered and (
        axis is None or norm_axis(axis, a.ndim) == j) else slice(None)
        for j, d in enumerate(a.dims))
    return a[key]


def np_atleast_1d(a):
    a = as_arr(a)
    return a if a.ndim else stack([a.elem(())])


def np_take(a, k, axis=None, **kw):
    a = as_arr(a)
    if axis is None:
        a = np_ravel(a)
        axis = 0
    key = [slice(None)] * a.ndim
    key[norm_axis(axis, a.ndim)] = k
    return a[tuple(key)]


def np_trapz(y, x=None, dx=1.0, axis=-1):
    """trapezoidal rule = sum of (x[i+1]-x[i]) (y[i+1]+y[i]) / 2"""
    y = as_arr(y)
    ax = norm_axis(axis, y.ndim)

    def sl(a, k, ax_):
        ix = [slice(None)] * a.ndim
        ix[ax_] = slice(1, None) if k else slice(None, -1)
        return a[tuple(ix)]
    m = sl(y, 1, ax) + sl(y, 0, ax)
    if x is None:
        d = to_S(dx)
    else:
        x = as_arr(x)
        if x.ndim == 1:
            d = x[1:] - x[:-1]
            if y.ndim > 1:
                d = d[tuple(slice(None) if i == ax else None
                            for i in range(y.ndim))]
        else:
            d = sl(x, 1, ax) - sl(x, 0, ax)
    return np_sum(m * d, axis=ax) * S(P(Fraction(1, 2)))


def np_logspace(a, b, num=50, endpoint=True, base=10.0, **kw):
    e = np_linspace(a, b, num, endpoint)
    return elementwise(lambda x: s_pow(to_S(base), to_S(x)), [e], "f")


def np_sort(a, axis=-1, kind=None):
    """only arrays with a concrete, small number of elements (forks on the
    order)"""
    a = as_arr(a)
    if a.ndim != 1 or not a.dims[0].n.is_const() or \
            a.dims[0].n.const() > 4:
        raise Unsupported("sort of a symbolic-length array")
    fn = a.snap()
    def order(f):
        # no solver call: every order is explored
        if f is TRUE or f is FALSE:
            return f is TRUE
        return path().fork(f)
    xs = [to_S(fn((P(i),))) for i in range(int(a.dims[0].n.const()))]
    for i in range(1, len(xs)):
        j = i
        while j > 0 and order((xs[j] < xs[j - 1]).f):
            xs[j], xs[j - 1] = xs[j - 1], xs[j]
            j -= 1
    return stack(xs)


def np_shape(a):
    return as_arr(a).shape


def np_ndim(a):
    return as_arr(a).ndim


def np_size(a, axis=None):
    a = as_arr(a)
    return a.size if axis is None else a.shape[axis]


def np_broadcast_to(a, shape):
    a = as_arr(a)
    return a + np_zeros(shape) if a._dt != "b" else Unsupp("broadcast_to")


def Unsupp(n):
    raise Unsupported(n)


def np_zeros(shape, dtype=None, **kw):
    dt = dtype_kind(dtype)
    return const_arr(shape, _cv(0, dt), dt)


def np_ones(shape, dtype=None, **kw):
    dt = dtype_kind(dtype)
    return const_arr(shape, _cv(1, dt), dt)


def np_inv(a):
    """matrix inverse (small concrete sizes: adjugate / determinant)"""
    used("linalg.inv")
    a = as_arr(a)
    if a.ndim == 2 and a.dims[0].n.is_const():
        n = int(a.dims[0].n.const())
        M = [[elem_p(a.elem((P(i), P(j)))) for j in range(n)]
             for i in range(n)]
        if n > 4:
            # a function of the entries, otherwise unspecified
            flat = [x for row in M for x in row]
            re = all(x.is_real() for x in flat)
            return np_array([[S(ring.app("inv_%d_%d_%d" % (n, i, j), flat,
                                         real=re)) for j in range(n)]
                             for i in range(n)])
        d = ring.inv(det(M))
        r = [[minor_cof(M, j, i) * d for j in range(n)] for i in range(n)]
        return np_array([[S(x) for x in row] for row in r])
    raise Unsupported("inverse of a symbolic-size matrix")


def np_pinv(a, **kw):
    """pseudo-inverse: a function of the entries, otherwise unspecified"""
    used("linalg.pinv")
    a = as_arr(a)
    if a.ndim != 2 or not all(d.n.is_const() for d in a.dims):
        raise Unsupported("pseudo-inverse of a symbolic-size matrix")
    n, m = [int(d.n.const()) for d in a.dims]
    flat = [elem_p(a.elem((P(i), P(j)))) for i in range(n) for j in range(m)]
    re = all(x.is_real() for x in flat)
    return np_array([[S(ring.app("pinv_%d_%d_%d_%d" % (n, m, i, j), flat,
                                 real=re)) for j in range(n)]
                     for i in range(m)])


def det(M):
    n = len(M)
    if n == 0:
        return ONE
    if n == 1:
        return M[0][0]
    out = ZERO
    for j in range(n):
        m = [row[:j] + row[j + 1:] for row in M[1:]]
        t = M[0][j] * det(m)
        out = out + t if j % 2 == 0 else out - t
    return out


def minor_cof(M, i, j):
    m = [row[:j] + row[j + 1:] for k, row in enumerate(M) if k != i]
    d = det(m)
    return d if (i + j) % 2 == 0 else -d


def np_solve(a, b):
    return np_dot(np_inv(a), b)


def no(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


class _NS:
    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return no(self._name + "." + k)


class _Type:
    def __init__(self, name, kind):
        self.__name__ = name
        self.kind = kind

    def __call__(self, x=0):
        if isinstance(x, (SymArr, list)):
            return astype(as_arr(x), self)
        if self.kind == "i":
            return s_trunc(to_S(x))
        return to_S(x)


class _Err:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class InstanceOf(type):
    pass


class _FloatAbs:
    pass


linalg = _NS("np.linalg", {"inv": np_inv, "pinv": np_pinv, "solve": np_solve,
                           "LinAlgError": type("LinAlgError", (Exception,),
                                               {})})
fftns = _NS("np.fft", {"fft": np_fft, "ifft": np_ifft, "rfft": np_rfft,
                       "irfft": np_irfft, "fftfreq": np_fftfreq,
                       "rfftfreq": np_rfftfreq,
                       "fftshift": _np_shift(False),
                       "ifftshift": _np_shift(True)})


class _Random(_NS):
    """random numbers exist only as stubs of the harness"""

    def __getattr__(self, k):
        f = RANDOM_STUBS.get("numpy.random." + k)
        return f if f is not None else _NS.__getattr__(self, k)


RANDOM_STUBS = {}
randns = _Random("np.random", {})

NP = _NS("np", {
    "pi": S(PI, isint=False), "inf": INF, "nan": float("nan"),
    "Inf": INF, "NaN": float("nan"), "newaxis": None,
    "e": S(ring.rexp(ONE), isint=False),
    "ndarray": SymArr, "r_": R_(),
    "fft": fftns, "linalg": linalg, "random": randns,
    "sum": np_sum, "mean": np_mean, "var": np_var, "std": np_std, "corrcoef": np_corrcoef, "cov": np_cov,
    "dot": np_dot, "matmul": matmul, "einsum": np_einsum,
    "vdot": lambda a, b: np_dot(as_arr(a).conjugate(), b),
    "inner": np_dot,
    "argmin": np_arg("min"), "argmax": np_arg("max"),
    "min": np_ext("min"), "max": np_ext("max"),
    "amin": np_ext("min"), "amax": np_ext("max"),
    "any": _quant("any"), "all": _quant("all"),
    "zeros": np_zeros,
    "ones": np_ones,
    "empty": np_zeros,
    "full": np_full,
    "zeros_like": lambda a, dtype=None, **k: full_like(a, 0, dtype),
    "ones_like": lambda a, dtype=None, **k: full_like(a, 1, dtype),
    "empty_like": lambda a, dtype=None, **k: full_like(a, 0, dtype),
    "full_like": lambda a, v, dtype=None, **k: np_full(as_arr(a).shape, v,
                                                       dtype),
    "arange": np_arange, "linspace": np_linspace,
    "array": np_array,
    "asarray": lambda a, dtype=None, **k: a if isinstance(a, SymArr) and (
        dtype is None or dtype_kind(dtype) == a._dt)
    else np_array(a, dtype),
    "ascontiguousarray": lambda a: as_arr(a),
    "copy": lambda a: as_arr(a).copy(),
    "stack": stack, "concatenate": concat,
    "vstack": lambda xs: concat([a if a.ndim > 1 else a[None, :]
                                 for a in map(as_arr, xs)], 0),
    "hstack": lambda xs: concat([np_atleast_1d(x) for x in xs], 0 if
                                as_arr(xs[0]).ndim <= 1 else 1),
    "append": lambda a, b, axis=None: concat(
        [np_ravel(np_atleast_1d(a)), np_ravel(np_atleast_1d(b))]
        if axis is None else [a, b], 0 if axis is None else axis),
    "real": lambda a: elementwise(lambda x: to_S(x).real, [a], "f")
    if isinstance(a, SymArr) else to_S(a).real,
    "imag": lambda a: elementwise(lambda x: to_S(x).imag, [a], "f")
    if isinstance(a, SymArr) else to_S(a).imag,
    "conj": lambda a: a.conjugate(), "conjugate": lambda a: a.conjugate(),
    "abs": un(s_abs), "absolute": un(s_abs), "fabs": un(s_abs),
    "sqrt": un(s_sqrt), "exp": un(s_exp),
    "square": un(lambda a: s_pow(a, 2)),
    "power": binm(lambda a, b: s_pow(to_S(a), b)),
    "sin": un(lambda a: S(ring.sin(a.fin()))),
    "cos": un(lambda a: S(ring.cos(a.fin()))),
    "tan": un(lambda a: S(ring.sin(a.fin()) * ring.inv(ring.cos(a.fin())))),
    "log": un(s_log), "log10": un(uf1("log10")),
    "arctan": un(uf1("arctan")), "arcsin": un(uf1("arcsin")),
    "angle": un(uf1("angle")),
    "arctan2": binm(lambda a, b: S(ring.app("arctan2", [
        to_S(a).fin(), to_S(b).fin()]))),
    "sign": un(lambda a: ite((a > 0).f, S(ONE), ite((a < 0).f, S(-ONE),
                                                   S(ZERO)))),
    "floor": un(lambda a: S(ring.floor(a.fin()), isint=False)),
    "ceil": un(lambda a: S(-ring.floor(-a.fin()), isint=False)),
    "round": un(s_round), "around": un(s_round), "rint": un(s_round),
    "negative": un(lambda a: -a),
    "add": binm(lambda a, b: a + b), "subtract": binm(lambda a, b: a - b),
    "multiply": binm(lambda a, b: a * b),
    "divide": binm(lambda a, b: s_div(to_S(a), to_S(b))),
    "true_divide": binm(lambda a, b: s_div(to_S(a), to_S(b))),
    "maximum": binm(lambda a, b: ite((to_S(a) < b).f, to_S(b), to_S(a))),
    "minimum": binm(lambda a, b: ite((to_S(b) < a).f, to_S(b), to_S(a))),
    "mod": binm(lambda a, b: to_S(a) % b),
    "greater": binm(lambda a, b: to_S(a) > b, "b"),
    "greater_equal": binm(lambda a, b: to_S(a) >= b, "b"),
    "less": binm(lambda a, b: to_S(a) < b, "b"),
    "less_equal": binm(lambda a, b: to_S(a) <= b, "b"),
    "equal": binm(lambda a, b: to_S(a) == b, "b"),
    "not_equal": binm(lambda a, b: to_S(a) != b, "b"),
    "logical_and": binm(lambda a, b: B(f_and(form_of(a), form_of(b))), "b"),
    "logical_or": binm(lambda a, b: B(f_or(form_of(a), form_of(b))), "b"),
    "logical_not": lambda a: elementwise(lambda x: B(f_not(form_of(x))), [a],
                                         "b") if isinstance(a, SymArr)
    else B(f_not(form_of(a))),
    "where": np_where, "flatnonzero": np_flatnonzero,
    "polyfit": np_polyfit, "poly1d": Poly1d, "polyval": np_polyval,
    "ix_": Ix.of, "array_equal": np_array_equal,
    "nonzero": lambda c: (np_flatnonzero(c),),
    "count_nonzero": lambda c, axis=None: np_sum(as_arr(c) != 0 if as_arr(
        c)._dt != "b" else c, axis=axis),
    "roll": np_roll, "flip": np_flip,
    "flipud": lambda a: np_flip(a, 0), "fliplr": lambda a: np_flip(a, 1),
    "reshape": np_reshape, "ravel": np_ravel, "transpose": np_transpose,
    "swapaxes": np_swapaxes, "squeeze": np_squeeze,
    "moveaxis": np_moveaxis,
    "expand_dims": np_expand_dims, "atleast_1d": np_atleast_1d,
    "diag": np_diag, "diagonal": np_diag, "eye": np_eye,
    "identity": np_eye, "outer": np_outer,
    "trace": lambda a: np_sum(np_diag(a)),
    "trapz": np_trapz, "trapezoid": np_trapz,
    "logspace": np_logspace, "sort": np_sort,
    "diff": np_diff, "cumsum": np_cumsum, "clip": np_clip,
    "isscalar": np_isscalar, "isnan": np_isnan, "isinf": np_isinf,
    "isfinite": lambda x: np_logical_fin(x),
    "median": np_array_uf("median"),
    "percentile": np_array_uf("percentile"),
    "tile": np_tile, "repeat": np_repeat, "take": np_take,
    "shape": np_shape, "ndim": np_ndim, "size": np_size,
    "broadcast_to": np_broadcast_to,
    "float64": _Type("float64", "f"), "float32": _Type("float32", "f"),
    "complex128": _Type("complex128", "c"), "int64": _Type("int64", "i"),
    "int32": _Type("int32", "i"), "bool_": _Type("bool", "b"),
    "complex64": _Type("complex64", "c"),
    "errstate": _Err, "seterr": lambda *a, **k: None,
    "integer": "np.integer", "floating": "np.floating",
    "number": "np.number",
})


def np_logical_fin(x):
    if isinstance(x, SymArr):
        return elementwise(lambda s: ~(np_isinf(s) | np_isnan(s)), [x], "b")
    return ~(np_isinf(x) | np_isnan(x))
