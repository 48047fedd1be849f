"""Run-time support for the instrumented modules: literals, loops, builtins.

The verified modules are the files of /repo, parsed on every run.  The only
rewriting (see load.py) is: float/complex literals and `/` become exact,
comprehensions and loops over symbolic ranges go through the hooks below."""
import builtins
import itertools
from fractions import Fraction
from . import ring, form
from .ring import Poly, P, ONE, ZERO, Unsupported, get_atom, mono1
from .form import TRUE, FALSE, f_and, f_or, f_not, lt0, le0, eq0
from .sym import (S, B, SymArr, Dim, Buf, Pos, path, to_S, form_of, ite,
                  as_arr, fresh_index, pylen, PathEnd, GENERIC, s_trunc,
                  s_abs, s_round, INF, dimlen, s_div, Path, Restart,
                  elementwise, Hooked, HOOKS)


def F(text):
    return S(P(Fraction(text)), isint=False)


class SJ(S):
    """imaginary literal: complex even when it is zero"""
    __slots__ = ()
    cplx = True


def J(text):
    return SJ(P(Fraction(text)) * ring.I, isint=False)


def div(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return S(P(Fraction(a) / Fraction(b)), isint=False)
    if isinstance(a, (int, float, complex)):
        a = to_S(a)
    return a / b


class Poison:
    _is_vc = True

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _x(self, *a, **k):
        raise Unsupported(self._why)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _x
    __truediv__ = __rtruediv__ = __getitem__ = __setitem__ = __call__ = _x
    __bool__ = __len__ = __iter__ = __lt__ = __gt__ = __le__ = __ge__ = _x
    __neg__ = __abs__ = __iadd__ = __isub__ = __pow__ = __format__ = _x

    def __getattr__(self, n):
        raise Unsupported(self._why)


class Undef:
    pass


UNDEF = Undef()


# ---------------------------------------------------------------- ranges
class SymRange:
    _is_vc = True

    def __init__(self, lo, hi, step=ONE):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        if self.step == ONE:
            n = self.hi - self.lo
        elif self.step == P(-1):
            n = self.lo - self.hi
        else:
            n = ring.fdiv(self.hi - self.lo + self.step - 1, self.step)
        if not path().decide(le0(-n)):
            return ZERO
        return n

    def at(self, k):
        return S(self.lo + k * self.step, isint=True)

    def to_arr(self):
        return SymArr.new((Dim(self.length()),), lambda i: self.at(i[0]), "i")

    def __getitem__(self, k):
        return self.to_arr()[k]

    def __iter__(self):
        n = self.length()
        if n.is_const():
            for i in builtins.range(int(n.const())):
                yield self.at(P(i))
            return
        raise Unsupported("symbolic range outside a loop")


class SymSeq:
    """lazily zipped symbolic iterable: n elements, at(k)"""
    _is_vc = True

    def __init__(self, n, at):
        self.n = n
        self._at = at

    def length(self):
        return self.n

    def at(self, k):
        return self._at(k)

    def __iter__(self):
        if self.n.is_const():
            for i in builtins.range(int(self.n.const())):
                yield self._at(P(i))
            return
        raise Unsupported("symbolic iterable outside a loop")


def sym_iter(x):
    """None if x is concretely iterable, else SymRange/SymSeq"""
    if isinstance(x, (SymRange, SymSeq)):
        n = x.length()
        if n.is_const():
            return None
        return x
    if isinstance(x, SymArr) and x.ndim:
        d = x.dims[0]
        if d.filtered:
            fn = x.snap()
            if x.ndim != 1:
                raise Unsupported("iteration over a compressed array")
            raise Unsupported("iteration over a compressed array")
        if d.n.is_const():
            return None
        return SymSeq(d.n, lambda k: x[S(k, isint=True)])
    if isinstance(x, SymList):
        if x.seg is None:
            return None
        return SymSeq(x.seg[0], x.seg[1])
    return None


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    ps = []
    for x in a:
        s = to_S(x) if not isinstance(x, float) else None
        if s is None or not s.is_int():
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        ps.append(s.fin())
    if all(p.is_const() for p in ps):
        return builtins.range(*[int(p.const()) for p in ps])
    if len(ps) == 1:
        return SymRange(ZERO, ps[0])
    if len(ps) == 2:
        return SymRange(ps[0], ps[1])
    if ps[2].is_const() and ps[2].const() != 0:
        return SymRange(*ps)
    raise Unsupported("range step")


def b_enumerate(x, start=0):
    s = sym_iter(x)
    if s is None:
        return builtins.enumerate(x, start)
    return SymSeq(s.length(), lambda k: (S(k + P(start), isint=True),
                                         s.at(k)))


def b_zip(*xs):
    ss = [sym_iter(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.zip(*xs)
    n = None
    for s, x in builtins.zip(ss, xs):
        m = s.length() if s is not None else P(builtins.len(builtins.list(x)))
        if n is None:
            n = m
        elif n != m:
            if not path().decide(eq0(n - m)):
                raise Unsupported("zip of different lengths")
    if any(s is None for s in ss):
        raise Unsupported("zip of symbolic and concrete")
    return SymSeq(n, lambda k: builtins.tuple(s.at(k) for s in ss))


class Chunk:
    """elements added by list.extend in one iteration of a symbolic loop"""

    def __init__(self, xs):
        self.n = xs.length()
        self.at = xs.at


class SymList(list):
    """list that may hold one symbolic segment [at(k) for k < n]"""

    def __init__(self, *a):
        super().__init__(*a)
        self.seg = None
        self.level = builtins.len(GENERIC)

    def append(self, x):
        if builtins.len(GENERIC) > self.level:
            GENERIC[-1].note_append(self, x)
            return
        if self.seg is not None:
            raise Unsupported("append to a symbolic list")
        super().append(x)

    def extend(self, xs):
        if builtins.len(GENERIC) > self.level and isinstance(
                xs, (SymRange, SymSeq)):
            GENERIC[-1].note_append(self, Chunk(xs))
            return
        if builtins.len(GENERIC) > self.level and isinstance(
                xs, SymList) and xs.seg is not None and xs is not self:
            n, at = xs.seg
            GENERIC[-1].note_append(self, Chunk(SymSeq(n, at)))
            return
        if self.seg is not None or builtins.len(GENERIC) > self.level:
            raise Unsupported("extend of a symbolic list")
        if sym_iter(xs) is not None and not builtins.list.__len__(self):
            self.seg = (xs.length(), xs.at)
            return
        super().extend(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        if self.seg is not None or builtins.len(GENERIC) > self.level:
            raise Unsupported("insert into a symbolic list")
        super().insert(i, x)

    def pop(self, *a):
        if self.seg is not None or builtins.len(GENERIC) > self.level:
            raise Unsupported("pop of a symbolic list")
        return super().pop(*a)

    def __setitem__(self, i, v):
        if self.seg is not None or builtins.len(GENERIC) > self.level:
            raise Unsupported("item assignment in a symbolic list")
        super().__setitem__(i, v)

    def _read(self):
        if builtins.len(GENERIC) > self.level:
            GENERIC[-1].reads.add(id(self))

    def __len__(self):
        self._read()
        if self.seg is not None:
            raise Unsupported("len of a symbolic list")
        return super().__len__()

    def __iter__(self):
        self._read()
        if self.seg is not None:
            raise Unsupported("iteration over a symbolic list")
        return super().__iter__()

    def __getitem__(self, i):
        self._read()
        if self.seg is not None:
            n, at = self.seg
            i = to_S(i).fin()
            if path().decide(lt0(i)):
                i = i + n
            if not path().decide(f_and(le0(-i), lt0(i - n))):
                raise IndexError("list index out of range")
            return at(i)
        if isinstance(i, S):
            i = i.__index__()
        return super().__getitem__(i)

    def to_array(self):
        if self.seg is None:
            from .npshim import np_array
            return np_array(builtins.list(self))
        n, at = self.seg
        k = fresh_index(n)
        x = at(k)
        if isinstance(x, SymArr):
            dims = x.dims
            kid = ring.atom_of(k).id
            if any(kid in d.rng().deps for d in dims):
                raise Unsupported("ragged symbolic list")
            return SymArr.new((Dim(n),) + builtins.tuple(dims),
                              lambda idx: at(idx[0]).elem(idx[1:]), x._dt)
        if isinstance(x, (S, B, int, float)):
            dt = "b" if isinstance(x, (B, bool)) else (
                "i" if to_S(x).is_int() else (
                    "f" if to_S(x).p.is_real() else "c"))
            return SymArr.new((Dim(n),), lambda idx: at(idx[0]), dt)
        if isinstance(x, (builtins.tuple, builtins.list)):
            from .npshim import np_array
            return SymArr.new((Dim(n),) + np_array(x).dims,
                              lambda idx: np_array(at(idx[0])).elem(idx[1:]),
                              np_array(x)._dt)
        raise Unsupported("array of %r" % type(x))


def comp(f, it):
    s = sym_iter(it)
    if s is None:
        return SymList([f(x) for x in it])
    r = SymList()
    n = s.length()

    def at(k):
        path().dry += 1
        try:
            return f(s.at(k))
        finally:
            path().dry -= 1
    at(fresh_index(n))
    r.seg = (n, at)
    return r


# ---------------------------------------------------------------- loops
HAVOC = {}
MIDS = {}       # while evaluating the last iteration: what the buffers held


def _in_range(kap, n):
    """0 <= kap < n; decided for remainders"""
    g = f_and(le0(-kap), lt0(kap - n))
    if g.kind == "and" and Path.cur is not None and any(
            at.kind == "fdiv" for m in kap.t for at in (
                ring.get_atom(i) for i, _ in m)):
        if form.entails(path().facts, g, 500) is True:
            return form.TRUE
    return g


class LoopFrame:
    def __init__(self, seq):
        self.seq = seq
        self.n = seq.length()
        self.symbolic = True
        self.writes = {}
        self.appends = []
        self.acc = {}
        self.same = {}
        self.reads = builtins.set()
        self.done = False
        self.passes = []
        p = path()
        c = p.labels.get("loopcount", 0)
        p.labels["loopcount"] = c + 1
        self.key = (builtins.tuple(p.taken), c)

    # buffers ------------------------------------------------------------
    def note_write(self, buf):
        if buf.id <= self.buf_mark and buf.id not in self.writes:
            self.writes[buf.id] = buf
            if buf.id not in self.havoc:
                for g in GENERIC:
                    if buf.id <= g.buf_mark:
                        HAVOC.setdefault(g.key, set()).add(buf.id)
                raise Restart()

    def note_append(self, lst, x):
        self.appends.append((lst, x))

    def head(self, names, vals):
        """values of the loop-assigned variables at the head of an arbitrary
        iteration"""
        p = path()
        self.buf_mark = Buf._n[0]
        self.havoc = HAVOC.get(self.key, set())
        self.names = names
        self.init = vals
        self.k = fresh_index(self.n, "it")
        self.mark_facts = builtins.len(p.facts)
        out = []
        for nm, v in builtins.zip(names, vals):
            if isinstance(v, (S, int, float)) and not isinstance(v, bool):
                a = ring.fresh("acc", integer=to_S(v).is_int() and
                               to_S(v).p.is_integer())
                self.acc[nm] = a
                out.append(S(a))
            elif v is UNDEF:
                out.append(Poison("use of a variable before assignment in a "
                                  "loop"))
            elif isinstance(v, SymList):
                # the same object as long as the body only adds to it
                # (a rebinding is noticed at the end)
                self.same[nm] = v
                out.append(v)
            else:
                out.append(Poison("loop-carried value"))
        # havoc buffers known to be written
        self.saved = {}
        self.mid = {}
        for b in ALLBUFS():
            if b.id in self.havoc:
                self.saved[b.id] = (b, b.fn)
                old = b.fn
                nm = "mid!%d!%d" % (b.id, ring._fresh[0])
                ring._fresh[0] += 1
                self.mid[b.id] = nm
                kk = self.k

                def fn(idx, nm=nm, old=old, kk=kk):
                    if nm in MIDS:
                        return MIDS[nm](idx)
                    o = old(idx)
                    if isinstance(o, B):
                        return B(f_not(form.eq0(ring.app(
                            nm, builtins.list(idx) + [kk], real=True))))
                    return S(ring.app(nm, builtins.list(idx) + [kk],
                                      real=o.p.is_real()))
                b.fn = fn
        return out

    def __iter__(self):
        GENERIC.append(self)
        p = path()
        try:
            # explore the body once per branch combination
            work = [[]]
            self.results = []
            while work:
                pre = work.pop()
                self.bpre, self.btaken, self.balts = pre, [], []
                self.conds = []
                del self.appends[:]
                for bid, (b, fn) in self.saved.items():
                    b.fn = self.headfn[bid] if hasattr(self, "headfn") \
                        else b.fn
                if not hasattr(self, "headfn"):
                    self.headfn = {bid: b.fn for bid, (b, _) in
                                   self.saved.items()}
                nf = builtins.len(p.facts)
                nq = builtins.len(p.foralls)
                self.base_facts = nf
                old_fork = p.fork
                old_epoch = p.epoch
                p.new_epoch()
                p.fork = self.fork
                ok = False
                try:
                    yield self.seq.at(self.k)
                    ok = True
                finally:
                    p.fork = old_fork
                    p.epoch = old_epoch
                    if not ok:
                        p.broken = "loop over a symbolic range left early"
                work += self.balts
                if builtins.len(p.foralls) != nq:
                    kid = ring.atom_of(self.k).id
                    del p.foralls[nq:]
                self.results.append((
                    f_and(*self.conds),
                    {bid: b.fn for bid, (b, _) in self.saved.items()},
                    builtins.list(self.appends),
                    self.endvals))
                del p.facts[nf:]
                if builtins.len(self.results) > 16:
                    raise Unsupported("too many branches in a loop body")
        finally:
            if GENERIC and GENERIC[-1] is self:
                GENERIC.pop()
        self.done = True

    def fork(self, f):
        p = path()
        n = builtins.len(self.btaken)
        if f is None:
            raise Unsupported("nondeterministic choice in a loop body")
        if n < builtins.len(self.bpre):
            v = self.bpre[n]
        else:
            v = True
            self.balts.append(self.btaken + [False])
        self.btaken.append(v)
        g = f if v else f_not(f)
        self.conds.append(g)
        p.add(g)
        return v

    endvals = None

    def end(self, vals):
        """called at the end of each pass through the body"""
        self.endvals = builtins.list(vals)

    def finish(self):
        """variable values after the loop; also finalises buffers/lists"""
        p = path()
        if not self.done:
            raise Unsupported("break out of a symbolic loop")
        kid = ring.atom_of(self.k).id
        accids = {ring.atom_of(a).id: nm for nm, a in self.acc.items()}
        # all body paths must be exhaustive: their conditions partition
        out = []
        self.content = {}
        for bid, (b, old) in self.saved.items():
            self._final_buf(b, old, kid, accids)
        for j, nm in builtins.enumerate(self.names):
            out.append(self._final_var(j, nm, kid, accids))
        # lists
        lists = {}
        for c, _, apps, _ in self.results:
            for lst, x in apps:
                lists.setdefault(id(lst), (lst, []))[1].append((c, x))
        for lst, items in lists.values():
            if id(lst) in self.reads:
                raise Unsupported("list read while a symbolic loop adds "
                                  "to it")
            if list.__len__(lst) or lst.seg is not None or \
                    builtins.len(items) != 1 or \
                    builtins.len(self.results) != 1:
                raise Unsupported("list built by a branching symbolic loop")
            x = items[0][1]
            if isinstance(x, Chunk):
                # chunks of one common length follow each other
                at, m = x.at, x.n
                if not m.deps.isdisjoint(set(accids)):
                    raise Unsupported("chunks of varying lengths")
                if kid in m.deps:
                    # ragged: element q is element pos(q) of chunk row(q)
                    from .npshim import Lam
                    n = self.n
                    lam = Lam.of(lambda k: ring.subst(m, {kid: k}), n)
                    j = fresh_index(n)
                    tot = ring.bigsum(n, j, lam.at(j))
                    t = fresh_index(m)
                    v = at(t)
                    tid = ring.atom_of(t).id

                    def rag(q, v=v, lam=lam, n=n, tid=tid, tot=tot):
                        r = ring.app("row", [n, lam, tot, q], integer=True,
                                     nonneg=True)
                        return subst_val(v, {kid: r, tid: ring.app(
                            "pos", [n, lam, tot, q], integer=True, nonneg=True)})
                    lst.seg = (tot, rag)
                    continue

                t = fresh_index(m)
                v = at(t)
                tid = ring.atom_of(t).id

                def fn(q, v=v, m=m, tid=tid):
                    r = ring.fdiv(q, m)
                    return subst_val(v, {kid: r, tid: q - r * m})
                lst.seg = (self.n * m, fn)
                continue
            self._check_free(x, accids)
            lst.seg = (self.n, lambda k, x=x: subst_val(x, {kid: k}))
        return out

    def _check_free(self, x, accids):
        pass

    def _final_var(self, j, nm, kid, accids):
        init = self.init[j]
        ends = [(c, r[j]) for c, _, _, r in self.results]
        if nm in self.acc and all(isinstance(v, (S, int, float)) and not
                                  isinstance(v, bool) for _, v in ends):
            a = self.acc[nm]
            tot = ZERO
            inc = True
            for c, v in ends:
                s = to_S(v)
                if s.infc is not None or s.nanc is not None:
                    inc = False
                    break
                e = s.p - a
                if e.deps & builtins.set(accids) or self._mid_dep(e):
                    inc = False
                    break
                tot = tot + ring.indicator(c) * e
            if inc:
                i0 = to_S(init)
                return S(i0.fin() + ring.bigsum(self.n, self.k, tot))
        # value of the last iteration
        vals = [v for _, v in ends]
        if nm in self.same and not all(v is init for v in vals):
            raise Unsupported("list rebound in a symbolic loop")
        if builtins.len(vals) == 1:
            v = vals[0]
            if isinstance(v, (S, B)):
                d = v.p.deps if isinstance(v, S) else v.f.deps
                if not (d & builtins.set(accids)) and not (
                        isinstance(v, S) and self._mid_dep(v.p)):
                    if Path.cur.decide(lt0(-self.n)):
                        return subst_val(v, {kid: self.n - 1})
                    return init
            if isinstance(v, SymArr) and not any(d.filtered for d in v.dims) \
                    and Path.cur.decide(lt0(-self.n)):
                return self._last_array(v, kid, accids)
            if v is UNDEF:
                return init
            if isinstance(v, Poison) and init is not UNDEF and False:
                return init
        if all(v is init for v in vals):
            return init
        return Poison("value of %r after a symbolic loop" % nm)

    def _last_array(self, v, kid, accids):
        """an array made in the body: its value after the last iteration,
        before which the buffers held what n - 1 iterations have written"""
        last = {kid: self.n - 1}
        held = {self.mid[bid]: at for bid, at in self.content.items()}
        # what a buffer holds after the last write to it is its final content
        ends = {id(f): self.saved[bid][0].fn for bid, f in
                self.results[0][1].items() if isinstance(f, Hooked)}
        fn = v.snap()
        names = builtins.set(self.mid.values())

        def at(idx):
            p = path()
            keep = builtins.dict(MIDS), builtins.dict(HOOKS)
            MIDS.update(held)
            HOOKS.update(ends)
            p.new_epoch()
            try:
                e = fn(idx)
            finally:
                for d, old in builtins.zip((MIDS, HOOKS), keep):
                    d.clear()
                    d.update(old)
                p.new_epoch()
            if not isinstance(e, S) or e.infc is not None or \
                    e.nanc is not None or _mentions(e.p, names) or \
                    e.p.deps & builtins.set(accids):
                raise Unsupported("array of the last iteration of a loop")
            return subst_val(e, last)
        dims = [Dim(ring.subst(d.n, last)) for d in v.dims]
        if any(d.n.deps & (builtins.set(accids) | {kid}) for d in dims):
            return Poison("array after a symbolic loop")
        return SymArr.new(dims, at, v._dt)

    def _mid_dep(self, e):
        names = builtins.set(self.mid.values())
        if not names:
            return False
        return _mentions(e, names)

    def _final_buf(self, b, old, kid, accids):
        mid = self.mid[b.id]
        nd = b.ndim
        gi = [ring.fresh("g", integer=True, nonneg=True)
              for _ in builtins.range(nd)]
        gt = builtins.tuple(gi)
        # collect the position of the write as a function of k
        sols = None
        merged = None
        for c, fns, _, _ in self.results:
            v = fns[b.id](gt)
            merged = v if merged is None else ite(c, v, merged)
        isb = isinstance(merged, B)
        if isb:
            merged = S(ring.indicator(merged.f))
        forms = set()
        _ind_forms(merged, forms)
        if merged.infc is not None or merged.nanc is not None:
            raise Unsupported("non-finite write in a symbolic loop")
        cand = None
        for f in forms:
            if f.kind == "eq" and kid in f.deps:
                from .npshim import solve_lin
                s = solve_lin(f.args[0], kid)
                if s is not None and s.deps & builtins.set(
                        ring.atom_of(g).id for g in gi):
                    # outside this equality nothing is written
                    off = ring.set_ind(merged.p, ring.mk_atom(
                        "ind", (f,)).id, 0)
                    m0 = ring.app(mid, builtins.list(gt) + [self.k],
                                  real=merged.p.is_real())
                    if isb:
                        m0 = ring.indicator(f_not(form.eq0(m0)))
                    from .prover import prove_zero
                    if prove_zero(off - m0, path().facts) is True:
                        cand = (f, s)
                        break
        if cand is None:
            m0 = ring.app(mid, builtins.list(gt) + [self.k],
                          real=merged.p.is_real())
            # invariant write: every iteration writes the same thing?
            raise Unsupported("loop writes that are not indexed by the loop "
                              "variable")
        f, s = cand
        on = ring.set_ind(merged.p, ring.mk_atom("ind", (f,)).id, 1)
        # replace read-modify-write of the same cell by the old content
        n = self.n
        k = self.k

        def fn(idx, n=n):
            mp = {ring.atom_of(g).id: i for g, i in builtins.zip(gi, idx)}
            kap = ring.subst(s, mp)
            g = _in_range(kap, n)
            o = old(idx)
            val = ring.subst(on, mp)
            val = ring.subst(val, {kid: kap})
            if isb:
                # what was in the cell before this iteration: the old content
                was = ring.mk_atom("ind", (form.eq0(ring.app(
                    mid, builtins.list(idx) + [kap], real=True)),)).id
                v1 = ring.set_ind(val, was, 0)
                v0 = ring.set_ind(val, was, 1)
                for w in (v0, v1):
                    if _mentions(w, builtins.set(self.mid.values())) or \
                            w.deps & builtins.set(accids):
                        raise Unsupported("boolean array read and written in "
                                          "a symbolic loop")
                was = form_of(o)
                new = f_or(f_and(was, f_not(eq0(v1))),
                           f_and(f_not(was), f_not(eq0(v0))))
                return B(f_or(f_and(g, new), f_and(f_not(g), was)))
            cell = ring.app(mid, builtins.list(idx) + [kap],
                            real=o.p.is_real())
            if _mentions(val, {mid}):
                at = ring.atom_of(cell)
                from .prover import replace_atom
                val = replace_atom(val, at.id, o.fin())
                if _mentions(val, {mid}):
                    raise Unsupported("loop reads cells written by other "
                                      "iterations")
            if val.deps & builtins.set(accids):
                raise Unsupported("loop-carried scalar stored in an array")
            for om in self.mid.values():
                if _mentions(val, {om}):
                    raise Unsupported("loop reads an array it writes")
            return ite(g, S(val), o)
        self.content[b.id] = lambda idx: fn(idx, n - 1)
        memo = {}

        def mfn(idx):
            k = (idx, Path.cur.epoch if Path.cur else 0)
            r = memo.get(k)
            if r is None:
                r = memo[k] = fn(idx)
            return r
        # force the checks now
        tst = builtins.tuple(ring.fresh("g", integer=True, nonneg=True)
                             for _ in gi)
        mfn(tst)
        outer = GENERIC[-1] if GENERIC else None
        b.fn = Hooked(mfn)
        b.nwrites += 1
        if outer is not None:
            outer.note_write(b)


def _mentions(p, names):
    stack = [p]
    seen = builtins.set()
    while stack:
        q = stack.pop()
        if id(q) in seen:
            continue
        seen.add(id(q))
        if isinstance(q, Poly):
            for m in q.t:
                for a, _ in m:
                    at = get_atom(a)
                    if at.kind == "app" and at.args[0] in names:
                        return True
                    for x in at.args:
                        if isinstance(x, (Poly, form.Form)) or hasattr(
                                x, "body"):
                            stack.append(x)
        elif isinstance(q, form.Form):
            if q.kind == "bapp" and q.args[0] in names:
                return True
            for x in q.args:
                if isinstance(x, (Poly, form.Form)):
                    stack.append(x)
        elif hasattr(q, "body"):
            stack.append(q.body)
    return False


def _ind_forms(v, acc):
    p = v.p if isinstance(v, S) else None
    if p is None:
        return
    for i in ring.ind_atoms(p):
        acc.add(get_atom(i).args[0])


def subst_val(x, mp):
    if isinstance(x, S):
        return S(ring.subst(x.p, mp),
                 None if x.infc is None else x.infc.subst(mp), x.isint,
                 None if x.nanc is None else x.nanc.subst(mp))
    if isinstance(x, B):
        return B(x.f.subst(mp))
    if isinstance(x, SymArr):
        fn = x.snap()
        dims = [Dim(ring.subst(d.n, mp)) if not d.filtered else d
                for d in x.dims]
        return SymArr.new(dims, lambda idx: subst_val(fn(idx), mp), x._dt)
    if isinstance(x, builtins.tuple):
        return builtins.tuple(subst_val(y, mp) for y in x)
    if isinstance(x, builtins.list):
        return [subst_val(y, mp) for y in x]
    if isinstance(x, (int, float, str, type(None))):
        return x
    raise Unsupported("per-iteration value %r" % type(x))


import weakref
_bufs = weakref.WeakSet()
_old_init = Buf.__init__


def _binit(self, *a, **k):
    _old_init(self, *a, **k)
    _bufs.add(self)


Buf.__init__ = _binit


def ALLBUFS():
    return builtins.list(_bufs)


class ConcreteLoop:
    symbolic = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return builtins.iter(self.it)


def loop(it):
    s = sym_iter(it)
    if s is None:
        return ConcreteLoop(it)
    return LoopFrame(s)


class Cell:
    pass


def havoc_val(v, why):
    if isinstance(v, bool):
        return B(form.bapp("hb!%d" % _cnt(), []))
    if isinstance(v, (int, S, float)):
        s = to_S(v)
        if s.p.is_real():
            return S(ring.fresh("h", integer=s.is_int() and
                                s.p.is_integer()), isint=s.is_int())
        raise Unsupported("complex loop variable")
    if isinstance(v, B):
        return B(form.bapp("hb!%d" % _cnt(), []))
    if isinstance(v, SymArr):
        nm = "h!%d" % _cnt()
        if any(d.filtered for d in v.dims):
            if v.ndim != 1:
                raise Unsupported("havoc of a compressed matrix")
            d = v.dims[0]
            mnm = "hm!%d" % _cnt()
            from .sym import mk_filter_dim
            nd = mk_filter_dim(d.base, lambda i: form.bapp(mnm, [i]))
            dims = [nd]
        else:
            dims = v.dims
        if v._dt == "b":
            return SymArr.new(dims, lambda idx: B(form.bapp(
                nm, builtins.list(idx))), "b")
        dt = v._dt
        return SymArr.new(dims, lambda idx: S(ring.app(
            nm, builtins.list(idx), real=dt != "c", integer=dt == "i")), dt)
    if isinstance(v, builtins.tuple):
        return builtins.tuple(havoc_val(x, why) for x in v)
    if v is UNDEF or v is None or isinstance(v, str):
        return Poison(why)
    return Poison(why)


def _cnt():
    ring._fresh[0] += 1
    return ring._fresh[0]


# ---------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, SymArr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return pylen(x.dims[0].n)
    if isinstance(x, SymList) and x.seg is not None:
        return pylen(x.seg[0])
    if isinstance(x, (SymRange, SymSeq)):
        return pylen(x.length())
    if isinstance(x, (S, B)):
        raise TypeError("object of type 'float' has no len()")
    return builtins.len(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, S):
            return x.is_int()
        return builtins.isinstance(x, builtins.int)


class b_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, S):
            return s_trunc(x)
        if isinstance(x, B):
            return x._s()
        if isinstance(x, SymArr):
            if x.ndim == 0:
                return s_trunc(to_S(x.elem(())))
            return s_trunc(to_S(x.item()))
        if isinstance(x, Pos):
            return x
        return builtins.int(x, *a)


b_int.__name__ = "int"


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, S):
            return (not x.is_int()) and x.p.is_real()
        return builtins.isinstance(x, builtins.float)


class b_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, S):
            return S(x.p, x.infc, False, x.nanc)
        if isinstance(x, B):
            return x._s()
        if isinstance(x, SymArr):
            return b_float(x.item())
        if isinstance(x, str):
            v = builtins.float(x)
            if v != v or v in (INF, -INF):
                return v
            return S(P(v), isint=False)
        return builtins.float(x)


b_float.__name__ = "float"


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.bool, B))


class b_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, B):
            return builtins.bool(x)
        return builtins.bool(x)


b_bool.__name__ = "bool"


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, S):
            return not x.p.is_real()
        return builtins.isinstance(x, builtins.complex)


class b_complex(metaclass=_ComplexMeta):
    def __new__(cls, a=0, b=0):
        return to_S(a) + to_S(b) * S(ring.I)


b_complex.__name__ = "complex"


def b_isinstance(x, t):
    if isinstance(t, builtins.tuple):
        return any(b_isinstance(x, u) for u in t)
    if t in ("np.integer",):
        return isinstance(x, S) and x.is_int()
    if t in ("np.floating", "np.number"):
        return isinstance(x, S)
    if t is builtins.list or t is b_list:
        return isinstance(x, builtins.list)
    if t is builtins.str:
        return isinstance(x, builtins.str)
    return builtins.isinstance(x, t)


def b_abs(x):
    if isinstance(x, S):
        return s_abs(x)
    return builtins.abs(x)


def _minmax(kind):
    bf = getattr(builtins, kind)

    def f(*a, **k):
        if k:
            return bf(*a, **k)
        if len(a) == 1 and isinstance(a[0], SymArr):
            from .npshim import NP
            return getattr(NP, kind)(a[0])
        xs = builtins.list(a[0]) if builtins.len(a) == 1 else builtins.list(a)
        if not any(isinstance(x, (S, B)) for x in xs):
            return bf(*a)
        r = xs[0]
        for x in xs[1:]:
            c = (to_S(x) < r) if kind == "min" else (to_S(x) > r)
            if path().dry:
                r = ite(c.f, to_S(x), to_S(r))
            else:
                r = ite(c.f, to_S(x), to_S(r))
        return r
    return f


def b_sum(x, start=0):
    s = sym_iter(x)
    if s is None:
        r = start
        for y in x:
            r = r + y
        return r
    n = s.length()
    k = fresh_index(n)
    v = to_S(s.at(k)).fin()
    return S(ring.bigsum(n, k, v)) + start


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.list)


class b_list(metaclass=_ListMeta):
    def __new__(cls, x=()):
        s = sym_iter(x)
        if s is None:
            return SymList(builtins.list(x))
        r = SymList()
        r.seg = (s.length(), s.at)
        return r


def b_round(x, n=None):
    if isinstance(x, S):
        if n is None or n == 0:
            return s_round(x)
        raise Unsupported("round to digits")
    return builtins.round(x) if n is None else builtins.round(x, n)


def b_any(x):
    if isinstance(x, SymArr):
        from .npshim import NP
        return NP.any(x)
    return builtins.any(x)


def b_all(x):
    if isinstance(x, SymArr):
        from .npshim import NP
        return NP.all(x)
    return builtins.all(x)


def b_pow(a, b):
    return a ** b


def mk_builtins():
    d = builtins.dict(builtins.__dict__)
    d.update(len=b_len, range=b_range, int=b_int, float=b_float,
             bool=b_bool, complex=b_complex, isinstance=b_isinstance,
             abs=b_abs, min=_minmax("min"), max=_minmax("max"), sum=b_sum,
             enumerate=b_enumerate, zip=b_zip, list=b_list, round=b_round,
             any=b_any, all=b_all, pow=b_pow, print=lambda *a, **k: None)

    def no_open(*a, **k):
        raise Unsupported("file access")
    d["open"] = no_open
    return d


def cells(loc, names):
    return [loc.get(n, UNDEF) for n in names]


WHILES = []
GENLOOPS = builtins.set()      # loops generalised at the first iteration
INVARIANTS = []                # candidate invariants (c.loop_invariant)
FULL = [False]                 # restart all paths
DROPPED = builtins.set()       # (loop, variable, candidate) not inductive


class _While:
    def __init__(self):
        p = path()
        c = p.labels.get("loopcount", 0)
        p.labels["loopcount"] = c + 1
        self.key = ("w", builtins.tuple(p.taken), c)
        self.havoced = False
        self.mark = None
        self.buf_mark = Buf._n[0]
        self.count = 0
        WHILES.append(self)

    def pre(self):
        self.mark = builtins.len(path().taken)
        self.count += 1
        if self.count == 1:
            self.start = self.mark
        if self.count > 200:
            raise Unsupported("while loop did not terminate in 200 concrete "
                              "iterations")

    def post(self, names, vals):
        p = path()
        if builtins.len(p.taken) == self.mark and self.key not in GENLOOPS:
            if builtins.len(p.taken) == self.start:
                return vals
            # a condition in the body was not decided: generalise from the
            # first iteration on
            GENLOOPS.add(self.key)
            restart_all()
        # condition not decided: generalise
        self.havoced = True
        self.names = names
        invs = []
        state = {nm: v for nm, v in builtins.zip(names, vals)
                 if v is not UNDEF}
        for j, fn in builtins.enumerate(INVARIANTS):
            # a candidate of two arguments relates two loop variables
            for nm in itertools.permutations(state, fn.__code__.co_argcount):
                if (self.key, nm, j) not in DROPPED:
                    if self.holds(fn, *[state[k] for k in nm]):
                        invs.append((nm, j, fn))
                    else:
                        DROPPED.add((self.key, nm, j))
        self.invs = invs
        if self.count > 1:
            # (in the first iteration only the condition has been added, which
            # is true whenever there is an iteration at all)
            del p.facts[:]
            p.facts.extend(self.entry_facts)
            p.new_epoch()
        out = [havoc_val(v, "loop-carried value") if v is not UNDEF else
               UNDEF for v in vals]
        state = builtins.dict(builtins.zip(names, out))
        for nm, j, fn in invs:
            b = fn(*[state[k] for k in nm])
            if isinstance(b, B):
                p.add(b.f)
        hv = HAVOC.get(self.key, builtins.set())
        for b in ALLBUFS():
            if b.id in hv:
                old = b.fn
                nm = "wmid!%d!%d" % (b.id, _cnt())

                def fn(idx, nm=nm, old=old):
                    o = old(idx)
                    if isinstance(o, B):
                        return B(form.bapp(nm, builtins.list(idx)))
                    return S(ring.app(nm, builtins.list(idx),
                                      real=o.p.is_real()))
                b.fn = fn
        return out

    @staticmethod
    def holds(fn, *v):
        """True if the candidate invariant applies to v and is proved here"""
        from . import vc
        try:
            b = fn(*v)
        except (Unsupported, TypeError, AttributeError, IndexError):
            return False
        if isinstance(b, bool):
            return b
        if not isinstance(b, B):
            return False
        pr = vc.Proof(path().facts, path().foralls, path().terms)
        return pr.prove(b.f)[0] is True

    def back(self, vals):
        """end of the arbitrary iteration: candidate invariants that the body
        does not keep are dropped"""
        state = builtins.dict(builtins.zip(self.names, vals))
        for nm, j, fn in self.invs:
            v = [state[k] for k in nm]
            if builtins.any(k is UNDEF for k in v) or not self.holds(fn, *v):
                DROPPED.add((self.key, nm, j))
                restart_all()
        raise PathEnd()

    def note_write(self, buf):
        if buf.id <= self.buf_mark:
            hv = HAVOC.setdefault(self.key, builtins.set())
            if buf.id not in hv:
                hv.add(buf.id)
                restart_all()

    def exited(self):
        if WHILES and self in WHILES:
            WHILES.remove(self)


def restart_all():
    FULL[0] = True
    raise Restart()


def WhileLoop():
    w = _While()
    w.entry_facts = builtins.list(path().facts)
    return w


_old_write = Buf.write


def _bwrite(self, fn):
    _old_write(self, fn)
    for w in builtins.list(WHILES):
        w.note_write(self)


Buf.write = _bwrite
