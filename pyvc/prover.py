"""Discharging obligations: ring normal form with case splits, then SMT."""
import time
from . import ring, form
from .ring import Poly, P, ONE, ZERO, get_atom, Unsupported, mono1
from .form import f_not, f_and, lt0, le0, eq0

DEADLINE = [None]


class ProofTimeout(BaseException):
    pass


def _tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise ProofTimeout()


def clear_inv(p):
    """Multiply by denominators until no Inv / negative powers remain at the
    top level (each denominator is non-zero where the expression is
    defined)."""
    for _ in range(200):
        _tick()
        if not p.t:
            return p
        neg = {}
        invs = {}
        for m in p.t:
            for a, e in m:
                at = get_atom(a)
                if at.kind == "Inv":
                    invs[a] = max(invs.get(a, 0), e)
                elif e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if neg:
            f = Poly({tuple(sorted(neg.items())): 1})
            p = p * f
            continue
        if not invs:
            return p
        # deepest Inv first (one not nested in the others)
        a = max(invs)
        q = get_atom(a).args[0]
        n = invs[a]
        by = {}
        for m, c in p.t.items():
            e = 0
            rest = []
            for x, ex in m:
                if x == a:
                    e = ex
                else:
                    rest.append((x, ex))
            by.setdefault(e, {})[tuple(rest)] = c
        out = ZERO
        # p = sum_e Inv^e * r_e ; multiply by q^n ; Horner
        pw = ONE
        for e in range(n, -1, -1):
            if e in by:
                out = out + Poly(by[e]) * pw
            pw = pw * q if e else pw
        p = out
    raise Unsupported("denominator clearing did not terminate")


def indicators(p):
    return sorted(ring.ind_atoms(p))


def _deep_inds(p, acc=None):
    """indicator atoms nested inside Inv / Sqrt / ... (not inside Sum)"""
    if acc is None:
        acc = set()
    for m in p.t:
        for a, _ in m:
            at = get_atom(a)
            if at.kind == "ind":
                acc.add(a)
    return acc


def prove_zero(p, facts, depth=0, budget=None):
    """True if p == 0 follows; False/None otherwise."""
    _tick()
    if not p.t:
        return True
    if budget is None:
        budget = [4000]
    budget[0] -= 1
    if budget[0] < 0:
        return None
    # indicators: decide or split
    inds = indicators(p)
    if inds:
        for i in inds:
            f = get_atom(i).args[0]
            r = form.entails(facts, f, 1500)
            if r is True:
                return prove_zero(simp_eq(ring.set_ind(p, i, 1), f), facts,
                                  depth, budget)
            r = form.entails(facts, f_not(f), 1500)
            if r is True:
                return prove_zero(ring.set_ind(p, i, 0), facts, depth, budget)
        i = inds[0]
        f = get_atom(i).args[0]
        for v, g in ((1, f), (0, f_not(f))):
            q = ring.set_ind(p, i, v)
            if not q.t:
                continue
            nf = facts + [g]
            q = simp_eq(q, g)
            r = prove_zero(q, nf, depth, budget)
            if r is not True:
                return r
        return True
    q = clear_inv(p)
    if not q.t:
        return True
    if indicators(q):
        return prove_zero(q, facts, depth, budget)
    if fact_multiple(q, facts):
        return True
    r = sums_zero(q, facts, depth, budget)
    if r is True:
        return True
    q2 = reduce_eqs(q, facts)
    if q2 is not None and q2 != q and depth < 12:
        if not q2.t:
            return True
        r = prove_zero(q2, facts, depth + 1, budget)
        if r is True:
            return True
    q3 = norm_mod(q, facts)
    if q3 is not None and q3 != q:
        if not q3.t:
            return True
        r = prove_zero(q3, facts, depth, budget)
        if r is True:
            return True
    # SMT fallback
    if len(q.t) <= 60:
        try:
            g = eq0(q)
            if g is form.TRUE:
                return True
            if form.entails(facts, g, 4000) is True:
                return True
            # inconsistent facts (dead branch)
            if form.check(facts, 2000) == "unsat":
                return True
        except Unsupported:
            pass
    return False


def fact_multiple(q, facts):
    """q is a monomial multiple of a fact that is an equation"""
    pos, neg = None, None
    for f in facts:
        if f.kind != "eq" or len(f.args[0].t) < 2:
            continue
        e = clear_inv(f.args[0])
        if len(e.t) != len(q.t):
            continue
        c, m, r = ring._content(e)
        if pos is None:
            _, mq, pos = ring._content(q)
            neg = pos.scale(-1)
        if r != pos and r != neg:
            continue
        d = dict(mq)
        if all(0 < x <= d.get(a, 0) for a, x in m):
            return True
    return False


def _lin_solve(p):
    """p == 0 with p linear (coef +-1) in some var atom -> (id, Poly)."""
    cand = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            at = get_atom(m[0][0])
            if at.kind != "var":
                continue
            # must not occur elsewhere
            others = Poly({mm: cc for mm, cc in p.t.items() if mm != m})
            if at.id in others.deps:
                continue
            # prefer the youngest variable
            if cand is None or at.id > cand[0]:
                cand = (at.id, others.scale(-1) if c == 1 else others)
    return cand


def simp_eq(p, f):
    """use an equality fact to substitute a variable"""
    if f.kind == "eq":
        s = _lin_solve(f.args[0])
        if s is None:
            s = _lin_solve(_open_fdivs(f.args[0]))
        if s is not None:
            return ring.subst(p, {s[0]: s[1]})
    if f.kind == "and":
        for g in f.args:
            p = simp_eq(p, g)
    return p


def _open_fdivs(e):
    """floor quotients by a non-constant as fresh integers (forgetting)"""
    mp = {}
    out = ZERO
    for m, c in e.t.items():
        t = Poly({(): c})
        for a, x in m:
            at = get_atom(a)
            if at.kind == "fdiv" and not at.args[1].is_const() and x > 0:
                if a not in mp:
                    mp[a] = ring.fresh("q", integer=True)
                t = t * mp[a] ** x
            else:
                t = t * ring._atom_pow(at, x)
        out = out + t
    return out


def reduce_eqs(p, facts):
    q = p
    for f in facts:
        if f.kind == "eq":
            q = simp_eq(q, f)
            # general rewriting: leading monomial elimination
            q = _rewrite(q, f.args[0])
    return q


def _rewrite(p, e):
    """rewrite with e == 0 by a term  c*atom  (atom not elsewhere in e)."""
    for m, c in e.t.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if get_atom(a).kind == "var":
                continue
            if any(x == a for mm in e.t if mm != m for x, _ in mm):
                continue
            if not any(x == a for mm in p.t for x, _ in mm):
                continue
            rest = Poly({mm: cc for mm, cc in e.t.items() if mm != m})
            val = rest * P(-1) * ring.inv(P(c))
            out = ZERO
            for mm, cc in p.t.items():
                d = dict(mm)
                if a in d:
                    ex = d.pop(a)
                    t = Poly({tuple(sorted(d.items())): cc})
                    if ex < 0:
                        return p
                    out = out + t * val ** ex
                else:
                    out = out + Poly({mm: cc})
            return out
    return p


def _fdivs(p, acc=None):
    if acc is None:
        acc = {}
    for m in p.t:
        for a, _ in m:
            at = get_atom(a)
            if at.kind == "fdiv":
                acc[a] = at
                _fdivs(at.args[0], acc)
            elif at.kind == "app":
                for x in at.args[2:]:
                    if isinstance(x, Poly):
                        _fdivs(x, acc)
            elif at.kind in ("E", "Exp", "Sqrt", "Abs", "Inv"):
                _fdivs(at.args[0], acc)
    return acc


def replace_atom(p, aid, val):
    """replace an arbitrary atom everywhere (not under Sum) by val"""
    memo = {}

    def go(q):
        if q in memo:
            return memo[q]
        out = ZERO
        for m, c in q.t.items():
            r = P(c)
            for a, e in m:
                at = get_atom(a)
                if a == aid:
                    v = val
                else:
                    v = ga(at)
                r = r * (v if e == 1 else v ** e)
            out = out + r
        memo[q] = out
        return out

    def ga(at):
        k = at.kind
        if k == "app":
            args = [go(x) if isinstance(x, Poly) else x for x in at.args[2:]]
            return ring.app(at.args[0], args, real=at.real,
                            integer=at.integer, pos=at.pos, nonneg=at.nonneg,
                            conjd=at.args[1])
        if k == "E":
            return ring.phase(go(at.args[0]))
        if k == "fdiv":
            return ring.fdiv(go(at.args[0]), go(at.args[1]))
        return mono1(at)
    return go(p)


def norm_mod(p, facts):
    """decide floor-division atoms under the facts (quotient 0, -1, 1) or
    split on them."""
    fd = _fdivs(p)
    for a in sorted(fd):
        at = fd[a]
        x, b = at.args
        for q in (0, -1, 1):
            lo = le0(b.scale(q) - x)
            hi = lt0(x - b.scale(q + 1))
            if form.entails(facts, f_and(lo, hi), 1500) is True:
                return replace_atom(p, a, P(q))
    return None


def _shift_canon(e):
    return e


def sums_zero(p, facts, depth, budget):
    """p = sum_hi( Sum_k body ) + p0, proved pointwise."""
    groups = {}
    p0 = {}
    for m, c in p.t.items():
        s = [(a, e) for a, e in m if get_atom(a).kind == "Sum"]
        if not s:
            p0[m] = c
            continue
        # choose the youngest Sum atom with exponent 1
        s1 = [a for a, e in s if e >= 1]
        a = max(s1)
        groups.setdefault(a, []).append((m, c))
    if not groups:
        return None
    # Try a few selections: all Sum monomials combined by equal hi
    byhi = {}
    for a, lst in groups.items():
        at = get_atom(a)
        byhi.setdefault(at.args[0], []).append((a, lst))
    p0 = Poly(p0)
    his = list(byhi)
    bodies = {}
    for hi in his:
        k = ring.fresh("k", integer=True, nonneg=True)
        form.add_varfact(k, le0(-k))
        form.add_varfact(k, lt0(k - hi))
        tot = ZERO
        for a, lst in byhi[hi]:
            at = get_atom(a)
            b = ring.subst(at.args[1], {at.args[2]: k})
            for m, c in lst:
                d = dict(m)
                d[a] -= 1
                if d[a] == 0:
                    del d[a]
                tot = tot + Poly({tuple(sorted(d.items())): c}) * b
        bodies[hi] = (k, tot)
    if not p0.is_zero() or len(his) > 1:
        if len(his) == 1 and not p0.is_zero():
            hi = his[0]
            k, tot = bodies[hi]
            if prove_zero(tot + p0 * ring.inv(hi), facts, depth + 1,
                          budget) is True:
                return True
        if len(his) == 2 and p0.is_zero():
            # try splitting the longer range by the shorter
            r = _merge_ranges(bodies, his, facts, depth, budget)
            if r is True:
                return True
        if not p0.is_zero():
            if prove_zero(p0, facts, depth + 1, budget) is not True:
                return None
    for hi in his:
        k, tot = bodies[hi]
        if depth > 6:
            return None
        if prove_zero(tot, facts, depth + 1, budget) is not True:
            return None
    return True


def _merge_ranges(bodies, his, facts, depth, budget):
    a, b = his
    for lo, hi in ((a, b), (b, a)):
        if form.entails(facts, le0(lo - hi), 1500) is True:
            k, tot = bodies[hi]
            k2, tot2 = bodies[lo]
            t2 = ring.subst(tot2, {ring.atom_of(k2).id: k})
            t = tot + ring.indicator(lt0(k - lo)) * t2
            if prove_zero(t, facts, depth + 1, budget) is True:
                return True
    # a sum over n folded onto the first h of its terms
    for n, h in ((a, b), (b, a)):
        if form.entails(facts, f_and(le0(h - n), le0(n + 1 - h.scale(2))),
                        1500) is True:
            k, tot = bodies[h]
            k2, tot2 = bodies[n]
            i2 = ring.atom_of(k2).id
            t = tot + ring.subst(tot2, {i2: k}) + ring.indicator(
                f_and(le0(1 - k), le0(k - n + h))) * ring.subst(
                    tot2, {i2: n - k})
            if prove_zero(t, facts, depth + 1, budget) is True:
                return True
    return None


def prove_nonneg(p, facts, depth=0, budget=None):
    """True if p >= 0 follows (sums compared term by term)"""
    _tick()
    if ring.is_nonneg(p):
        return True
    if not p.is_real():
        return None
    if budget is None:
        budget = [300]
    budget[0] -= 1
    if budget[0] < 0 or depth > 6:
        return None
    inds = indicators(p)
    if inds:
        for i in inds:
            f = get_atom(i).args[0]
            if form.entails(facts, f, 1500) is True:
                return prove_nonneg(simp_eq(ring.set_ind(p, i, 1), f), facts,
                                    depth, budget)
            if form.entails(facts, f_not(f), 1500) is True:
                return prove_nonneg(ring.set_ind(p, i, 0), facts, depth,
                                    budget)
        i = inds[0]
        f = get_atom(i).args[0]
        for v, g in ((1, f), (0, f_not(f))):
            q = simp_eq(ring.set_ind(p, i, v), g)
            if prove_nonneg(q, facts + [g], depth, budget) is not True:
                return None
        return True
    # facts  0 <= e  (not e < 0) used syntactically
    for f in facts:
        if f.kind == "not" and f.args[0].kind == "lt":
            e = f.args[0].args[0]
            if e == p:
                return True
    # positive common factor
    c, mono, q = ring._content(p)
    if mono and (c > 0 or True):
        rest = ONE
        for a, e in mono:
            at = get_atom(a)
            if not (at.pos or at.nonneg or (at.real and e % 2 == 0)):
                rest = rest * ring._atom_pow(at, e)
        q2 = (q * rest).scale(c)
        if q2 != p and prove_nonneg(q2, facts, depth + 1, budget) is True:
            return True
    byhi = {}
    p0 = {}
    for m, c in p.t.items():
        s = [a for a, e in m if get_atom(a).kind == "Sum" and e == 1]
        if not s:
            p0[m] = c
        else:
            a = max(s)
            byhi.setdefault(get_atom(a).args[0], []).append((a, m, c))
    p0 = Poly(p0)
    if len(byhi) == 1:
        (hi, lst), = byhi.items()
        k = ring.fresh("k", integer=True, nonneg=True)
        form.add_varfact(k, le0(-k))
        form.add_varfact(k, lt0(k - hi))
        tot = ZERO
        for a, m, c in lst:
            at = get_atom(a)
            d = dict(m)
            d.pop(a)
            tot = tot + Poly({tuple(sorted(d.items())): c}) * ring.subst(
                at.args[1], {at.args[2]: k})
        if p0.is_zero():
            if prove_nonneg(tot, facts, depth + 1, budget) is True:
                return True
        else:
            for t in (tot + ring.indicator(eq0(k)) * p0,
                      tot + p0 * ring.inv(hi)):
                if prove_nonneg(t, facts, depth + 1, budget) is True:
                    return True
    try:
        return form.entails(facts, le0(-p), 3000)
    except Unsupported:
        return None


def _clear_common(p, q):
    """p, q multiplied by the same denominators -> polynomials"""
    for _ in range(100):
        _tick()
        neg, invs = {}, {}
        for x in (p, q):
            for m in x.t:
                for a, e in m:
                    at = get_atom(a)
                    if at.kind == "Inv":
                        invs[a] = max(invs.get(a, 0), e)
                    elif e < 0:
                        neg[a] = max(neg.get(a, 0), -e)
        if neg:
            f = Poly({tuple(sorted(neg.items())): 1})
            p, q = p * f, q * f
            continue
        if not invs:
            return p, q
        a = max(invs)
        n = invs[a]
        d = get_atom(a).args[0]
        out = []
        for x in (p, q):
            by = {}
            for m, c in x.t.items():
                e = 0
                rest = []
                for y, ey in m:
                    if y == a:
                        e = ey
                    else:
                        rest.append((y, ey))
                by.setdefault(e, {})[tuple(rest)] = c
            r = ZERO
            pw = [ONE]
            for _k in range(n):
                pw.append(pw[-1] * d)
            for e, t in by.items():
                r = r + Poly(t) * pw[n - e]
            out.append(r)
        p, q = out
    raise Unsupported("denominator clearing did not terminate")


def _lead(p):
    ids = sorted({a for m in p.t for a, _ in m})
    return max(p.t, key=lambda m: tuple(dict(m).get(i, 0) for i in ids))


def scaled_match(p, q):
    """p == r * q for a positive monomial r"""
    if p == q:
        return True
    if not p.t or not q.t:
        return False
    sp, sq = p.atoms(), q.atoms()
    big = {a for a in sp | sq if get_atom(a).kind in ("Sum", "app")}
    if not big:
        return False
    P_, Q_ = _clear_common(p, q)
    if len(P_.t) != len(Q_.t) or len(P_.t) > 5000 or not P_.t:
        return False
    lp = {}
    ids = sorted({a for x in (P_, Q_) for m in x.t for a, _ in m})
    key = lambda m: tuple(dict(m).get(i, 0) for i in ids)
    mp, mq = max(P_.t, key=key), max(Q_.t, key=key)
    d = dict(mp)
    for a, e in mq:
        d[a] = d.get(a, 0) - e
    d = {a: e for a, e in d.items() if e}
    r = ring.P(1).scale(1)
    from fractions import Fraction
    cf = Fraction(P_.t[mp]) / Q_.t[mq]
    if cf <= 0:
        return False
    for a, e in d.items():
        if not get_atom(a).pos:
            return False
        r = r * ring._atom_pow(get_atom(a), e)
    return P_ == Q_ * r.scale(cf)


_SM = {}


def unify(f, facts):
    """goal polynomials that equal a fact's up to a positive factor"""
    def cand(p):
        return not p.is_integer() and len(p.t) >= 2
    goal = [p for p in form._polys([f]) if cand(p)]
    if not goal:
        return {}
    have = [q for q in form._polys(facts) if cand(q)]
    have = list(dict.fromkeys(have))[:80]
    uni = {}
    for p in dict.fromkeys(goal):
        for q in have:
            if p == q:
                break
            for sg in (1, -1):
                key = (p, q, sg)
                r = _SM.get(key)
                if r is None:
                    try:
                        r = scaled_match(p, q if sg > 0 else -q)
                    except Unsupported:
                        r = False
                    _SM[key] = r
                if r:
                    uni[p] = (q, sg)
                    break
            if p in uni:
                break
    return uni


def prove_form(f, facts, timeout=8000):
    """True proved / False refuted (model) / None unknown"""
    if f is form.TRUE:
        return True
    if f.kind == "and":
        res = [prove_form(g, facts, timeout) for g in f.args]
        if all(r is True for r in res):
            return True
        return False if any(r is False for r in res) else None
    if f.kind == "eq":
        if prove_zero(f.args[0], facts) is True:
            return True
        return form.entails(facts, f, timeout)
    if f in facts:
        return True
    r = form.entails(facts, f, timeout)
    if r is True:
        return True
    uni = unify(f, facts)
    if uni and form.entails(facts, f, timeout, uni) is True:
        return True
    if f.kind == "not" and f.args[0].kind == "lt":
        if prove_nonneg(f.args[0].args[0], facts) is True:
            return True
    return r
