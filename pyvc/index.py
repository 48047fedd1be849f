"""numpy indexing semantics for symbolic arrays."""
from . import ring, form
from .ring import P, Poly, ONE, ZERO, Unsupported
from .form import TRUE, FALSE, f_and, f_not, lt0, le0, eq0
from . import sym
from .sym import (SymArr, S, B, Dim, Buf, path, to_S, form_of, ite, Pos,
                  mk_filter_dim, same_dim, fresh_index, as_arr, is_one,
                  dimlen, elementwise, bidx, broadcast_dims, _b)


class _Full:
    pass


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    from .rt import SymRange
    key = [as_arr(k) if isinstance(k, (list, range, SymRange)) else k
           for k in key]
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SymArr) and k._dt == "b":
            used += max(k.ndim, 0)
        else:
            used += 1
    n_ell = sum(1 for k in key if k is Ellipsis)
    out = []
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (a.ndim - used)
        else:
            out.append(k)
    if not n_ell:
        out += [slice(None)] * (a.ndim - used)
    if used > a.ndim:
        raise IndexError("too many indices for array")
    return out


def norm_int(k, dim):
    """index scalar -> Poly token; raises IndexError where out of bounds"""
    if dim.filtered:
        if isinstance(k, Pos):
            if same_dim(k.dim, dim):
                return k.tok
            raise Unsupported("position of another compressed array")
        if isinstance(k, int) and k in (0, -1):
            return first_token(dim, k)
        raise Unsupported("integer index into a compressed array")
    if isinstance(k, Pos):
        raise Unsupported("compressed position used on a plain axis")
    if isinstance(k, S):
        if not k.is_int():
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             "arrays are valid indices")
        i = k.fin()
    elif isinstance(k, bool):
        raise Unsupported("bool index")
    elif isinstance(k, int):
        i = P(k)
    elif isinstance(k, float):
        raise IndexError("only integers are valid indices")
    else:
        raise Unsupported("index %r" % type(k))
    n = dim.n
    pth = path()
    if pth.decide(lt0(i)):
        i = i + n
        if pth.decide(lt0(i)):
            raise IndexError("index out of bounds")
    if not pth.decide(lt0(i - n)):
        raise IndexError("index out of bounds")
    return i


def first_token(dim, which):
    """first (0) / last (-1) member of a filtered axis"""
    pth = path()
    if not nonempty(dim):
        raise IndexError("index out of bounds")
    name = "first" if which == 0 else "last"
    from .npshim import Lam
    t = ring.app(name, [dim.base, Lam.of_form(dim.cond)], integer=True,
                 nonneg=True)
    pth.add(dim.guard(t))
    if which == 0:
        pth.foralls.append((lambda j: form.f_imp(
            f_and(dim.guard(j), lt0(j - t)), FALSE), "first"))
    else:
        pth.foralls.append((lambda j: form.f_imp(
            f_and(dim.guard(j), lt0(t - j)), FALSE), "last"))
    return t


def nonempty(dim):
    """fork on emptiness of an axis; records witness / universal fact"""
    pth = path()
    if not dim.filtered:
        return pth.decide(lt0(-dim.n))
    key = ("nonempty", dim.ident)
    if key in pth.labels:
        return pth.labels[key]
    # provable?
    for t in list(pth.terms):
        if form.entails(pth.facts, dim.guard(t), 800) is True:
            pth.labels[key] = True
            return True
    r = pth.fork(None)
    pth.labels[key] = r
    if r:
        w = fresh_index(dim.base, "w")
        pth.add(dim.guard(w))
        pth.add(lt0(-dim.n))
        pth.terms.append(w)
    else:
        pth.foralls.append((lambda j: f_not(dim.guard(j)), "empty"))
        pth.add(eq0(dim.n))
        for t in list(pth.terms):
            pth.add(f_not(dim.guard(t)))
    if not pth.feasible():
        from .sym import PathEnd
        raise PathEnd()
    return r


def clampi(v, n, default):
    if v is None:
        return default
    if isinstance(v, (S, int)) and not isinstance(v, bool):
        s = to_S(v)
        if not s.is_int():
            raise TypeError("slice indices must be integers or None or have "
                            "an __index__ method")
        i = s.fin()
    elif isinstance(v, float):
        raise TypeError("slice indices must be integers or None or have an "
                        "__index__ method")
    else:
        raise Unsupported("slice bound %r" % type(v))
    pth = path()
    if pth.decide(lt0(i)):
        i = i + n
        if pth.decide(lt0(i)):
            return ZERO
        return i
    if pth.decide(le0(i - n)):
        return i
    return n


def norm_slice(sl, dim):
    """-> (start, step const int, length) or None for the full axis"""
    if sl.start is None and sl.stop is None and sl.step in (None, 1):
        return None
    if dim.filtered:
        if sl.start is None and sl.stop is None:
            return None
        raise Unsupported("slice of a compressed array")
    n = dim.n
    step = sl.step
    if step is None:
        step = 1
    if isinstance(step, S):
        if step.p.is_const():
            step = int(step.p.const())
        elif sl.start is None and sl.stop is None:
            # symbolic stride: positive
            if not path().decide(lt0(-step.fin())):
                raise Unsupported("non-positive symbolic stride")
            st = step.fin()
            ln = ring.fdiv(n + st - 1, st)
            return (ZERO, st, ln)
        else:
            raise Unsupported("symbolic stride")
    if step > 0:
        lo = clampi(sl.start, n, ZERO)
        hi = clampi(sl.stop, n, n)
        if not path().decide(le0(lo - hi)):
            return (ZERO, 1, ZERO)
        ln = hi - lo
        if step != 1:
            ln = ring.fdiv(ln + P(step - 1), P(step))
        return (lo, step, ln)
    if step == -1 and sl.start is None and sl.stop is None:
        return (n - 1, -1, n)
    if step == -1:
        def cl(v, default):
            if v is None:
                return default
            i = to_S(v).fin()
            pth = path()
            if pth.decide(lt0(i)):
                i = i + n
                if pth.decide(lt0(i)):
                    return P(-1)
                return i
            if pth.decide(lt0(i - n)):
                return i
            return n - 1
        lo = cl(sl.start, n - 1)
        hi = cl(sl.stop, P(-1))
        if not path().decide(le0(hi - lo)):
            return (ZERO, 1, ZERO)
        return (lo, -1, lo - hi)
    raise Unsupported("slice step %r" % (step,))


def basic_view(a, items):
    """items: list of ints (Poly tokens), None, or slice specs."""
    dims = []
    plan = []      # per source axis: ('i', tok) | ('s', start, step, vax)
    vax = 0
    ax = 0
    for k in items:
        if k is None:
            dims.append(Dim(ONE))
            vax += 1
            continue
        d = a.dims[ax]
        if isinstance(k, slice):
            r = norm_slice(k, d)
            if r is None:
                plan.append(("f", vax))
                dims.append(d)
            else:
                plan.append(("s", r[0], r[1], vax, r[2]))
                dims.append(Dim(r[2]))
            vax += 1
        else:
            plan.append(("i", norm_int(k, d)))
        ax += 1
    nv = vax
    aimap, ainv = a.imap, a.inv

    def imap(v):
        out = []
        for p in plan:
            if p[0] == "i":
                out.append(p[1])
            elif p[0] == "f":
                out.append(v[p[1]])
            else:
                st = p[2]
                out.append(p[1] + (v[p[3]] if st == 1 else v[p[3]] * st))
        out = tuple(out)
        return aimap(out) if aimap else out

    def inv(b):
        if ainv:
            c, b = ainv(b)
        else:
            c = TRUE
        v = [ZERO] * nv
        for p, x in zip(plan, b):
            if p[0] == "i":
                c = f_and(c, eq0(x - p[1]))
            elif p[0] == "f":
                v[p[1]] = x
            else:
                st = p[2]
                if isinstance(st, int) and st == 1:
                    y = x - p[1]
                elif isinstance(st, int) and st == -1:
                    y = p[1] - x
                else:
                    y = ring.fdiv(x - p[1], P(st))
                    c = f_and(c, eq0(x - p[1] - y * st))
                c = f_and(c, le0(-y), lt0(y - p[4]))
                v[p[3]] = y
        return c, tuple(v)
    return SymArr(a.buf, dims, imap, inv, a._dt, base=a)


def is_basic(k):
    return k is None or isinstance(k, slice) or (
        isinstance(k, (int, S, Pos, float)) and not isinstance(k, bool))


def int_arr_token(k, idx, n):
    v = to_S(k.snap()(idx)).fin()
    if not v.is_integer():
        raise Unsupported("non-integer index array")
    # negative entries wrap
    g = lt0(v)
    if g is FALSE:
        return v
    dimfacts = [d.guard(i) for d, i in zip(k.dims, idx)]
    if form.entails(path().facts + dimfacts, f_not(g), 1500) is True:
        return v
    return v + ring.indicator(g) * n


def named(x):
    if isinstance(x, S) and len(x.p.t) >= ring.NAME_MIN[0] and not x.isint:
        q = ring.name(x.p)
        if q is not x.p:
            return S(q, nanc=x.nanc, infc=x.infc, isint=x.isint)
    return x


class Ix(tuple):
    """np.ix_(...): one array of constant positions per axis"""
    @staticmethod
    def of(*ks):
        ks = [as_arr(k) for k in ks]
        out = []
        for k in ks:
            if k.ndim != 1:
                raise ValueError("Cross index must be 1 dimensional")
            n = k.dims[0].n
            if k.dims[0].filtered or not n.is_const():
                raise Unsupported("np.ix_ of a symbolic number of positions")
            if k._dt == "b":
                raise Unsupported("np.ix_ of a mask")
            out.append(tuple(k[j] for j in range(int(n.const()))))
        return Ix(out)


def ix_take(a, key):
    for ax, ks in enumerate(key):
        for k in ks:
            norm_int(k, a.dims[ax])
        a = take(a, SymArr.new((Dim(ZERO),), lambda i: S(ZERO, isint=True),
                               "i") if not ks else as_arr(list(ks)), ax)
    return a


def ix_put(a, key, value):
    import itertools
    v = as_arr(value)
    if v.ndim == 0:
        v = v[None]
    if v.ndim < a.ndim:
        v = v[(None,) * (a.ndim - v.ndim)]
    for q in itertools.product(*[range(len(ks)) for ks in key]):
        tail = tuple(slice(None) for _ in range(a.ndim - len(key)))
        w = v
        for ax, j in enumerate(q):
            w = w[0] if is_one(w.dims[0].n) else w[j]
        setitem(a, tuple(ks[j] for ks, j in zip(key, q)) + tail, w)


def getitem(a, key):
    if isinstance(key, Ix):
        return ix_take(a, key)
    if isinstance(key, B):
        # 0-d boolean: adds an axis of length 0/1
        raise Unsupported("scalar boolean index")
    items = expand_key(a, key)
    items = [x.elem(()) if isinstance(x, SymArr) and x.ndim == 0 else x
             for x in items]
    if all(is_basic(k) for k in items):
        if a.ndim and all(not isinstance(k, slice) and k is not None
                          for k in items):
            toks = tuple(norm_int(k, d) for k, d in zip(items, a.dims))
            return named(a.elem(toks))
        return basic_view(a, items)
    # advanced: apply basic parts first, keeping advanced axes whole
    adv = [k for k in items if isinstance(k, SymArr)]
    if len([k for k in items if not is_basic(k)]) != len(adv):
        raise Unsupported("index %r" % (items,))
    # multi-dimensional boolean mask
    if any(k._dt == "b" and k.ndim > 1 for k in adv):
        return multi_mask(a, items)
    if len(adv) > 1 or any(isinstance(k, (int, S, Pos)) for k in items):
        # integers combined with one advanced index
        if len(adv) == 1:
            b_items = [slice(None) if isinstance(k, SymArr) else k
                       for k in items]
            # position of advanced axis after dropping ints
            v = basic_view(a, b_items)
            pos = 0
            for k in items:
                if isinstance(k, SymArr):
                    break
                if k is None or isinstance(k, slice):
                    pos += 1
            return take(v, adv[0], pos)
        return pair_take(a, items)
    b_items = [slice(None) if isinstance(k, SymArr) else k for k in items]
    v = basic_view(a, b_items)
    pos = 0
    for k in items:
        if isinstance(k, SymArr):
            break
        pos += 1
    return take(v, adv[0], pos)


def _half_atoms(x, acc):
    if isinstance(x, Poly):
        for m in x.t:
            for i, _ in m:
                at = ring.get_atom(i)
                if at.kind == "fdiv" and at.args[1] == P(2):
                    acc.add(i)
                for y in at.args:
                    _half_atoms(y, acc)
    elif isinstance(x, form.Form):
        for y in x.args:
            _half_atoms(y, acc)


def span(n, cond):
    """(lo, length) if the mask cond selects lo, lo+1, ... lo+length-1, one
    end of the axis being reached; only masks made of half ranges are tried"""
    if n.is_const():
        return None
    p = path()
    t = fresh_index(n)
    c = cond(t)
    acc = set()
    _half_atoms(c, acc)
    acc = {i for i in acc if ring.atom_of(t).id not in
           ring.get_atom(i).deps}
    if not acc:
        return None
    memo = p.__dict__.setdefault("spans", {})
    v = sym.canon_var()
    key = (n, cond(v))
    if key in memo:
        return memo[key]
    h = ring.fdiv(n, P(2))
    out = None
    z0 = form.entails(p.facts, cond(ZERO), 800) if \
        form.entails(p.facts, form.lt0(-n), 500) is True else None
    for m in (h + 1, n - h, h):
        if z0 is True and form.entails(p.facts, form.f_iff(
                c, form.lt0(t - m)), 1500) is True:
            out = (ZERO, m)
        elif z0 is not True and form.entails(p.facts, form.f_iff(
                c, form.le0(m - t)), 1500) is True:
            out = (m, n - m)
        if out is not None:
            if form.entails(p.facts, f_and(le0(-out[1]), le0(out[0]
                            + out[1] - n)), 1000) is True:
                break
            out = None
    memo[key] = out
    return out


def take(v, k, ax):
    d = v.dims[ax]
    fn = v.snap()
    if k._dt == "b" and k.ndim == 1 and not d.filtered \
            and not k.dims[0].filtered and same_dim(d, k.dims[0]):
        kf0 = k.snap()
        sp = span(d.n, lambda i: form_of(kf0((i,))))
        if sp is not None:
            lo, ln = sp
            return SymArr.new(v.dims[:ax] + (Dim(ln),) + v.dims[ax + 1:],
                              lambda idx: fn(tuple(idx[:ax]) + (
                                  idx[ax] + lo,) + tuple(idx[ax + 1:])),
                              v._dt)
    if k._dt == "b":
        if d.filtered:
            # mask of a compressed array with a mask on the same parameters
            kf = k.snap()
            if not same_dim(d, k.dims[0]):
                # a mask of another origin: only if all entries are alike
                one = form_of(kf((fresh_index(k.dims[0].rng()),)))
                if k.dims[0].filtered or (one is not TRUE and
                                          one is not FALSE):
                    raise Unsupported("mask over another compressed axis")
                if not path().decide(eq0(d.n - k.dims[0].n)):
                    raise IndexError("boolean index did not match")
            nd = mk_filter_dim(d.base, lambda i: f_and(
                d.cond(i), form_of(kf((i,)))))
            if not nd.filtered:
                nd = Dim(d.base)
        else:
            if k.dims[0].filtered:
                raise Unsupported("compressed mask")
            if not same_dim(d, k.dims[0]):
                if not path().decide(eq0(d.n - k.dims[0].n)):
                    raise IndexError("boolean index did not match")
            kf = k.snap()
            nd = mk_filter_dim(d.n, lambda i: form_of(kf((i,))))
        dims = v.dims[:ax] + (nd,) + v.dims[ax + 1:]
        return SymArr.new(dims, fn, v._dt)
    if k._dt not in ("i",):
        if k._dt == "f" and k.ndim == 1 and k.dims[0].n.is_zero():
            pass
        else:
            raise IndexError("arrays used as indices must be of integer "
                             "(or boolean) type")
    kd = k.dims
    m = len(kd)
    if d.filtered:
        if getattr(k, "posdim", None) is None or not same_dim(k.posdim, d):
            raise Unsupported("integer array index of a compressed axis")
        kf = k.snap()

        def fnp(idx):
            t = to_S(kf(tuple(idx[ax:ax + m]))).fin()
            return fn(tuple(idx[:ax]) + (t,) + tuple(idx[ax + m:]))
        dims = v.dims[:ax] + kd + v.dims[ax + 1:]
        return SymArr.new(dims, fnp, v._dt)
    if getattr(k, "posdim", None) is not None:
        raise Unsupported("compressed positions used on a plain axis")
    n = d.n
    check_bounds(k, n)

    def fn2(idx):
        t = int_arr_token(k, tuple(idx[ax:ax + m]), n)
        return fn(tuple(idx[:ax]) + (t,) + tuple(idx[ax + m:]))
    dims = v.dims[:ax] + kd + v.dims[ax + 1:]
    return SymArr.new(dims, fn2, v._dt)


def check_bounds(k, n):
    """all entries of the integer array k lie in [-n, n); otherwise fork to
    an IndexError path"""
    pth = path()
    idx = tuple(fresh_index(d.rng()) for d in k.dims)
    g = [d.guard(i) for d, i in zip(k.dims, idx)]
    v = to_S(k.snap()(idx)).fin()
    ok = f_and(le0(-n - v), lt0(v - n))
    if form.entails(pth.facts + g, ok, 2000) is True:
        return
    if pth.dry:
        raise Unsupported("index bounds inside an element function")
    # fork: either some entry is out of range, or all are in range
    if pth.fork(None):
        pth.foralls.append((None, "bounds"))
        return
    for f in g:
        pth.add(f)
    pth.add(f_not(ok))
    if not pth.feasible():
        from .sym import PathEnd
        raise PathEnd()
    raise IndexError("index out of bounds")


def multi_mask(a, items):
    if len(items) == 1 or all(isinstance(k, slice) and k == slice(None)
                              for k in items[1:]):
        k = items[0]
        if k.ndim == a.ndim:
            # flattened compressed selection; keep as multi-axis filter
            r = MaskedSel(a, k)
            return r
    raise Unsupported("multi-dimensional mask indexing")


class MaskedSel:
    """a[mask] for a mask of a's full shape (used for read-modify-write)."""
    _is_vc = True

    def __init__(self, a, mask, fn=None):
        self.a = a
        self.mask = mask
        self.fn = fn or a.snap()

    def _map(self, op):
        f = self.fn
        return MaskedSel(self.a, self.mask, lambda idx: op(f(idx)))

    def __add__(self, o):
        return self._map(lambda x: x + _sc(o))
    __radd__ = __add__
    __iadd__ = __add__

    def __sub__(self, o):
        return self._map(lambda x: x - _sc(o))
    __isub__ = __sub__

    def __mul__(self, o):
        return self._map(lambda x: x * _sc(o))
    __rmul__ = __mul__
    __imul__ = __mul__

    def __neg__(self):
        return self._map(lambda x: -x)

    def __getattr__(self, n):
        raise Unsupported("multi-dimensional masked selection ." + n)


def _sc(o):
    if isinstance(o, (int, float, S)):
        return o
    raise Unsupported("operand of a masked selection")


def pair_take(a, items):
    """a[ints..., intarrays...] with all advanced indices broadcast together,
    no slices in between (result axes first)."""
    adv = []
    for ax, k in enumerate(items):
        if isinstance(k, SymArr):
            if k._dt == "b":
                raise Unsupported("mixed mask and integer indices")
            adv.append(k)
        elif k is None:
            raise Unsupported("newaxis with several index arrays")
    dims = broadcast_dims(adv)
    nd = len(dims)
    fn = a.snap()
    nslices = [ax for ax, k in enumerate(items) if isinstance(k, slice)]
    for ax in nslices:
        if norm_slice(items[ax], a.dims[ax]) is not None:
            raise Unsupported("slice with several index arrays")
    # contiguous advanced block?
    advpos = [ax for ax, k in enumerate(items) if not isinstance(k, slice)]
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    lead = advpos[0] if contiguous else 0
    for ax, k in enumerate(items):
        if isinstance(k, SymArr):
            check_bounds(k, a.dims[ax].n)

    def fn2(idx):
        ai = idx[lead:lead + nd]
        si = list(idx[:lead]) + list(idx[lead + nd:])
        out = []
        for ax, k in enumerate(items):
            if isinstance(k, slice):
                out.append(si.pop(0))
            elif isinstance(k, SymArr):
                out.append(int_arr_token(k, bidx(k, ai, nd), a.dims[ax].n))
            else:
                out.append(norm_int(k, a.dims[ax]))
        return fn(tuple(out))
    sd = [a.dims[ax] for ax in nslices]
    return SymArr.new(tuple(sd[:lead]) + tuple(dims) + tuple(sd[lead:]), fn2,
                      a._dt)


# ---------------------------------------------------------------- writes
def cast_elem(v, dt):
    if dt == "b":
        return _b(v)
    if isinstance(v, B):
        v = v._s()
    v = to_S(v)
    if dt == "i":
        if v.infc is not None:
            raise Unsupported("inf into an int array")
        if not v.p.is_integer():
            from .sym import s_trunc
            return s_trunc(v)
    if dt == "f" and not v.p.is_real():
        raise Unsupported("complex value stored in a real array")
    return v


def write_region(a, invfn, vdims, val):
    """a.buf := where region then val else old"""
    buf = a.buf
    old = buf.fn
    dt = a._dt
    nd = len(vdims)
    if isinstance(val, (list, tuple)):
        val = as_arr(val)
    if isinstance(val, SymArr):
        vf = val.snap()
        if val.ndim > nd:
            # leading ones may be dropped
            extra = val.ndim - nd
            if all(is_one(d.n) for d in val.dims[:extra]):
                vv, vf0 = val, vf
                val = SymArr.new(val.dims[extra:], lambda i: vf0(
                    (ZERO,) * extra + tuple(i)), val._dt)
                vf = val.snap()
            else:
                raise ValueError("could not broadcast input array")
        off = nd - val.ndim
        for j, d in enumerate(val.dims):
            t = vdims[off + j]
            if not d.filtered and is_one(d.n):
                continue
            if not same_dim(d, t):
                if d.filtered or t.filtered:
                    raise Unsupported("assignment of a compressed array")
                if not path().decide(eq0(d.n - t.n)):
                    raise ValueError("could not broadcast input array")

        def getv(v):
            return vf(bidx(val, v, nd))
    else:
        if isinstance(val, (int, float, complex, S, B, bool)):
            def getv(v):
                return val
        elif val is None:
            raise TypeError("float() argument must not be None")
        else:
            raise Unsupported("assigned value %r" % type(val))
    memo = {}

    def fn(b):
        r = memo.get(b)
        if r is None:
            c, v = invfn(b)
            if c is FALSE:
                r = old(b)
            elif c is TRUE:
                r = cast_elem(getv(v), dt)
            else:
                r = ite(c, cast_elem(getv(v), dt), old(b))
            memo[b] = r
        return r
    buf.write(fn)


def setitem(a, key, val):
    if isinstance(key, B):
        raise Unsupported("scalar boolean index")
    if isinstance(key, Ix):
        return ix_put(a, key, val)
    items = expand_key(a, key)
    items = [x.elem(()) if isinstance(x, SymArr) and x.ndim == 0 else x
             for x in items]
    if all(is_basic(k) for k in items):
        v = basic_view(a, items)
        write_region(a, v.inv, v.dims, val)
        return
    adv = [(p, k) for p, k in enumerate(items) if isinstance(k, SymArr)]
    if len(adv) == 1 and adv[0][1]._dt == "b" and adv[0][1].ndim > 1:
        m = adv[0][1]
        if m.ndim != a.ndim:
            raise Unsupported("partial mask assignment")
        mf = m.snap()
        ainv = a.inv
        if isinstance(val, MaskedSel):
            f = val.fn
            if val.mask is not m:
                raise Unsupported("masked assignment from another mask")
            val = SymArr.new(a.dims, f, a._dt)
        elif isinstance(val, SymArr):
            raise Unsupported("masked assignment of an array")

        def inv(b):
            c, v = ainv(b) if ainv else (TRUE, b)
            return f_and(c, form_of(mf(v))), v
        write_region(a, inv, a.dims, val)
        return
    if len(adv) == 1:
        pos, k = adv[0]
        b_items = [slice(None) if isinstance(x, SymArr) else x for x in items]
        v = basic_view(a, b_items)
        ax = 0
        for x in items:
            if isinstance(x, SymArr):
                break
            if x is None or isinstance(x, slice):
                ax += 1
        vinv = v.inv
        if k._dt == "b":
            kf = k.snap()
            d = v.dims[ax]
            if d.filtered:
                raise Unsupported("mask assignment on a compressed axis")
            if not same_dim(d, k.dims[0]):
                if k.dims[0].filtered or not path().decide(
                        eq0(d.n - k.dims[0].n)):
                    raise IndexError("boolean index did not match")
            sp = span(d.n, lambda i: form_of(kf((i,))))
            if sp is not None:
                lo, ln = sp

                def inv0(b):
                    c, w = vinv(b)
                    t = w[ax] - lo
                    return f_and(c, le0(-t), lt0(t - ln)), \
                        tuple(w[:ax]) + (t,) + tuple(w[ax + 1:])
                write_region(a, inv0, v.dims[:ax] + (Dim(ln),)
                             + v.dims[ax + 1:], val)
                return
            nd = mk_filter_dim(d.n, lambda i: form_of(kf((i,))))

            def inv(b):
                c, w = vinv(b)
                return f_and(c, form_of(kf((w[ax],)))), w
            dims = v.dims[:ax] + (nd,) + v.dims[ax + 1:]
            write_region(a, inv, dims, val)
            return
        # integer array: identity-like maps only
        if k.ndim == 1:
            kf = k.snap()
            kd = k.dims[0]
            t = fresh_index(kd.rng())
            e = to_S(kf((t,))).fin()
            c0 = e - t
            tid = ring.atom_of(t).id
            if tid not in c0.deps:
                check_bounds(k, v.dims[ax].n)

                def inv2(b):
                    c, w = vinv(b)
                    tok = w[ax] - c0
                    w2 = tuple(w[:ax]) + (tok,) + tuple(w[ax + 1:])
                    return f_and(c, kd.guard(tok)), w2
                dims = v.dims[:ax] + (kd,) + v.dims[ax + 1:]
                write_region(a, inv2, dims, val)
                return
            if kd.n.is_const() and not kd.filtered:
                va = as_arr(val)
                for j in range(int(kd.n.const())):
                    it = list(items)
                    it[pos] = S(to_S(kf((P(j),))).fin(), isint=True)
                    x = val
                    if isinstance(val, (SymArr, list, tuple)):
                        x = va if va.ndim == 0 or is_one(va.dims[0].n) \
                            else va[j]
                    setitem(a, tuple(it), x)
                return
    raise Unsupported("advanced assignment")
